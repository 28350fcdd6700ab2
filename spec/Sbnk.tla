------------------------------------ MODULE Sbnk ------------------------------------
(***************************************************************************)
(* Instrument banks (SBNK).                                                 *)
(* note        [w, ar, p, type]: wave ID / duty cycle, wave archive slot,   *)
(*             six bytes (pitch, attack, decay, sustain, release, pan)      *)
(* instrument  [k, first, ends, notes, key, merge]; k is 1 (single note),   *)
(*             16 (range from first on), 17 (regions up to ends[i])         *)
(* bank        [insts: sequence of <<>> or <<instrument>>,                  *)
(*              inacc: sequence of [after: <<>> or <<index>>, insts],       *)
(*              unk, wars: wave archive IDs, each <<>> or <<id>>]           *)
(* key orders the instruments' data; merge separates identical data.        *)
(***************************************************************************)
EXTENDS Bytes, TLC
StdHeader(magic, version, size, blocks) == magic \o <<255, 254>> \o U16(version) \o U32(size) \o U16(16) \o U16(blocks)
SbnkMagic == <<83, 66, 78, 75>>   DataMagic == <<68, 65, 84, 65>>
NoteBytes(n) == U16(n.w) \o U16(n.ar) \o n.p
TypedNote(n) == U16(n.type) \o NoteBytes(n)
InstData(x) ==
  CASE x.k = 1 -> NoteBytes(x.notes[1])
    [] x.k = 16 -> <<x.first, x.first + Len(x.notes) - 1>> \o Cat([i \in 1..Len(x.notes) |-> TypedNote(x.notes[i])])
    [] x.k = 17 -> x.ends \o Zeros(8 - Len(x.ends)) \o Cat([i \in 1..Len(x.notes) |-> TypedNote(x.notes[i])])
InstType(x) == IF x.k = 1 THEN x.notes[1].type ELSE x.k
NoteOk(n) == n.w \in 0..65535 /\ n.ar \in 0..65535 /\ n.type \in 0..65535 /\ \A i \in 1..6 : n.p[i] \in Byte
InstOk(x) ==
  /\ \A i \in 1..Len(x.notes) : NoteOk(x.notes[i])
  /\ CASE x.k = 1 -> x.notes[1].type \in 1..15
       [] x.k = 16 -> x.first \in Byte /\ x.first + Len(x.notes) - 1 \in Byte
       [] x.k = 17 -> Len(x.ends) \in 1..8 /\ x.ends[1] \in Byte /\ \A i \in 2..Len(x.ends) : x.ends[i] \in 1..255

(* order of the data: single-note, range, regional; by key; by index *)
Group(x) == IF x.k = 1 THEN 1 ELSE IF x.k = 16 THEN 2 ELSE 3
Before(b, i, j) ==
  LET x == b.insts[i][1]  y == b.insts[j][1] IN
  \/ Group(x) < Group(y)
  \/ Group(x) = Group(y) /\ (x.key < y.key \/ (x.key = y.key /\ i < j))
Present(b) == {i \in 1..Len(b.insts) : b.insts[i] # <<>>}
Ordered(b) == SetToSortSeq(Present(b), LAMBDA i, j : Before(b, i, j))
InaccAt(b, a) == LET q == SelectSeq(b.inacc, LAMBDA r : r.after = a) IN Cat([i \in 1..Len(q) |-> q[i].insts])
TooHigh(b) == SetToSortSeq({b.inacc[i].after[1] : i \in {j \in 1..Len(b.inacc) : b.inacc[j].after # <<>> /\ (b.inacc[j].after[1] >= Len(b.insts) \/ b.insts[b.inacc[j].after[1] + 1] = <<>>)}}, <)
(* everything that has data, in order: <<index or 0, instrument>> *)
Layout(b) ==
  LET o == Ordered(b)  t == TooHigh(b)  Plain(s) == [i \in 1..Len(s) |-> <<0, s[i]>>] IN
  Plain(InaccAt(b, <<>>))
  \o Cat([n \in 1..Len(o) |-> <<<<o[n], b.insts[o[n]][1]>>>> \o Plain(InaccAt(b, <<o[n] - 1>>))])
  \o Cat([n \in 1..Len(t) |-> Plain(InaccAt(b, <<t[n]>>))])
(* identical data with the same merge ID is stored once, at its first place *)
RECURSIVE Place(_, _, _, _)
Place(lay, i, seen, off) ==
  IF i > Len(lay) THEN <<>> ELSE
  LET x == lay[i][2]  d == InstData(x)
      m == SelectSeq(seen, LAMBDA q : q[1] = d /\ q[2] = x.merge) IN
  IF m # <<>> THEN <<[off |-> m[1][3], new |-> FALSE]>> \o Place(lay, i + 1, seen, off)
  ELSE <<[off |-> off, new |-> TRUE]>> \o Place(lay, i + 1, Append(seen, <<d, x.merge, off>>), off + Len(d))
SbnkEncode(b) ==
  LET n == Len(b.insts)  base == 60 + 4 * n
      lay == Layout(b)   pl == Place(lay, 1, <<>>, base)
      OffOf(i) == pl[CHOOSE j \in 1..Len(lay) : lay[j][1] = i].off
      body == Cat([j \in 1..Len(lay) |-> IF pl[j].new THEN InstData(lay[j][2]) ELSE <<>>])
      tab == Cat([i \in 1..n |-> IF b.insts[i] = <<>> THEN <<0, 0, 0, 0>> ELSE <<InstType(b.insts[i][1])>> \o U16(OffOf(i)) \o <<0>>])
      size == AlignUp(base + Len(body), 4)
  IN StdHeader(SbnkMagic, 256, size, 1) \o DataMagic \o U32(size - 16) \o Zeros(32) \o U32(n) \o tab \o PadTo(body, 4, 0)
BodyLen(b) == LET lay == Layout(b)  pl == Place(lay, 1, <<>>, 0) IN IF lay = <<>> THEN 0 ELSE SumTo([j \in 1..Len(lay) |-> IF pl[j].new THEN Len(InstData(lay[j][2])) ELSE 0], Len(lay))
BankOk(b) == /\ \A i \in Present(b) : InstOk(b.insts[i][1])
             /\ \A i \in 1..Len(b.inacc) : \A j \in 1..Len(b.inacc[i].insts) : InstOk(b.inacc[i].insts[j])
             /\ 60 + 4 * Len(b.insts) + BodyLen(b) <= 65535

(* ---- reading ---- *)
RNote(d, o, type) == [w |-> R16(d, o), ar |-> R16(d, o + 2), p |-> Slice(d, o + 4, 6), type |-> type]
RTyped(d, o) == RNote(d, o + 2, R16(d, o))
RECURSIVE Ends(_, _, _)
Ends(d, o, i) == IF i = 8 \/ (i > 0 /\ At(d, o + i) = 0) THEN <<>> ELSE <<At(d, o + i)>> \o Ends(d, o, i + 1)
RInst(d, o, type) ==
  LET ends == Ends(d, o, 0)
      n == IF type < 16 THEN 1 ELSE IF type = 16 THEN MaxI(0, At(d, o + 1) - At(d, o) + 1) ELSE Len(ends)
  IN [k |-> IF type < 16 THEN 1 ELSE type, first |-> IF type = 16 THEN At(d, o) ELSE 0, ends |-> IF type = 17 THEN ends ELSE <<>>,
      notes |-> [i \in 1..n |-> IF type < 16 THEN RNote(d, o, type) ELSE RTyped(d, o + (IF type = 16 THEN 2 ELSE 8) + 12 * (i - 1))],
      key |-> o, merge |-> o]
SbnkInsts(d) == [i \in 1..R32(d, 56) |-> LET t == At(d, 56 + 4 * i) IN IF t = 0 THEN <<>> ELSE <<RInst(d, R16(d, 57 + 4 * i), t)>>]
(* keys and merge IDs of a bank as they come back after saving *)
AsReloaded(b) ==
  LET lay == Layout(b)  pl == Place(lay, 1, <<>>, 60 + 4 * Len(b.insts)) IN
  [i \in 1..Len(b.insts) |-> IF b.insts[i] = <<>> THEN <<>> ELSE LET o == pl[CHOOSE j \in 1..Len(lay) : lay[j][1] = i].off IN <<[b.insts[i][1] EXCEPT !.key = o, !.merge = o]>>]
=============================================================================
