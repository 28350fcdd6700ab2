---------------------------------- MODULE Code ----------------------------------
(***************************************************************************)
(* Main code files and overlay tables.                                      *)
(* A section: [data, ram, bss (4 bytes), implicit]; ram addresses and the    *)
(* file's own address are integers.  A code file: [secs, ram, cso] with cso  *)
(* an option (offset of the settings block).                                *)
(* Settings block: +0 table start, +4 table end, +8 start of the first       *)
(* table section's data (all as RAM addresses), +0x14 end of the compressed  *)
(* file or 0.                                                                *)
(***************************************************************************)
EXTENDS Bytes, TLC

Magic == <<33, 6, 192, 222, 222, 192, 6, 33>>
RECURSIVE FindMagic(_, _)
FindMagic(b, i) == IF i >= 32768 \/ i + 8 > Len(b) THEN -1
                   ELSE IF b[i+1] = 33 /\ Slice(b, i, 8) = Magic THEN i - 28 ELSE FindMagic(b, i + 4)
(* a table that is the very last thing in the file, referenced by <<start, end>> *)
RECURSIVE FindTable(_, _, _)
FindTable(b, ram, i) ==
  IF i + 4 > Len(b) THEN -1
  ELSE IF i >= 4 /\ Slice(b, i, 4) = U32(ram + Len(b))
          /\ LET st == R32(b, i - 4) IN st >= 0 /\ st <= ram + Len(b) /\ st % 4 = 0 /\ (ram + Len(b) - st) % 12 = 0 /\ ram + Len(b) - st < 256
       THEN i - 4 ELSE FindTable(b, ram, i + 1)
CsoByPointer(b, ram, ptr) ==
  LET p == ptr - ram - 4 IN
  IF ptr = 0 \/ p < 0 \/ p + 4 > Len(b) THEN -1
  ELSE LET a == R32(b, p) - ram IN IF a >= 0 /\ a < Len(b) - 4 THEN a ELSE -1
CsoOf(b, ram, ptr) ==
  LET x == CsoByPointer(b, ram, ptr) IN
  IF x >= 0 THEN <<x>>
  ELSE LET m == FindMagic(b, 0) IN
       IF m >= 0 THEN <<m>>
       ELSE LET t == FindTable(b, ram, 0) IN IF t >= 0 THEN <<t>> ELSE <<>>

Sec(d, ram, bss, imp) == [data |-> d, ram |-> ram, bss |-> bss, implicit |-> imp]
RECURSIVE TableSecs(_, _, _, _)
TableSecs(b, pos, end, dat) ==
  IF pos >= end THEN <<>>
  ELSE <<Sec(Slice(b, dat, R32(b, pos + 4)), R32(b, pos), Slice(b, pos + 8, 4), FALSE)>>
       \o TableSecs(b, pos + 12, end, dat + R32(b, pos + 4) + PadLen(R32(b, pos + 4), 4))
CodeDecode(b, ram, ptr) ==
  LET cso == CsoOf(b, ram, ptr) IN
  [ram |-> ram, cso |-> cso,
   secs |-> IF cso = <<>> THEN <<Sec(b, ram, Zeros(4), TRUE)>>
            ELSE LET c == cso[1]  dat == R32(b, c + 8) - ram
                 IN <<Sec(Slice(b, 0, dat), ram, Zeros(4), TRUE)>> \o TableSecs(b, R32(b, c) - ram, R32(b, c + 4) - ram, dat)]

(* ---- saving (every section is padded to a multiple of 4; its size in the table is without that) -- *)
Poke(b, o, w) == [i \in 1..Len(b) |-> IF i > o /\ i <= o + Len(w) THEN w[i - o] ELSE b[i]]
Explicit(secs) == SelectSeq(secs, LAMBDA s : ~s.implicit)
TableOrder(secs) == SelectSeq(Explicit(secs), LAMBDA s : Len(s.data) > 0) \o SelectSeq(Explicit(secs), LAMBDA s : Len(s.data) = 0)
TableBytes(secs) == Cat(Map(TableOrder(secs), LAMBDA s : U32(s.ram) \o U32(Len(s.data)) \o s.bss))
Body(secs) == Cat(Map(secs, LAMBDA s : PadTo(s.data, 4, 0)))
CodeEncode(m) ==
  LET body == Body(m.secs)
      t == m.ram + Len(body)
      img == body \o TableBytes(m.secs)
  IN IF m.cso = <<>> THEN img
     ELSE LET c == m.cso[1] IN
          Poke(Poke(img, c, U32(t) \o U32(t + Len(TableBytes(m.secs))) \o U32(m.ram + Len(PadTo(m.secs[1].data, 4, 0)))), c + 20, Zeros(4))
(* what a reopened file holds: empty sections last, settings block updated; nothing tells the length of the first section without padding *)
Reopened(m, img) ==
  [m EXCEPT !.secs = <<[m.secs[1] EXCEPT !.data = Slice(img, 0, Len(PadTo(@, 4, 0))), !.ram = m.ram, !.bss = Zeros(4)]>> \o TableOrder(m.secs)]

(* ---- overlay tables ------------------------------------------------------------- *)
(* overlay entry: [id, ram, ramSize, bss, si0, si1, file, csize, flags]; addresses are 4 bytes *)
OvEncode(o) == U32(o.id) \o o.ram \o U32(o.ramSize) \o o.bss \o o.si0 \o o.si1 \o U32(o.file) \o U24(o.csize) \o <<o.flags>>
OvDecode(b, i) == LET o == 32 * (i - 1) IN
  [id |-> R32(b, o), ram |-> Slice(b, o + 4, 4), ramSize |-> R32(b, o + 8), bss |-> Slice(b, o + 12, 4),
   si0 |-> Slice(b, o + 16, 4), si1 |-> Slice(b, o + 20, 4), file |-> R32(b, o + 24), csize |-> R24(b, o + 28), flags |-> At(b, o + 31)]
OvTable(b) == [i \in 1..(Len(b) \div 32) |-> OvDecode(b, i)]
SortById(s) == SortSeq(s, LAMBDA x, y : x.id < y.id)
=============================================================================
