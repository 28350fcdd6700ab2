---------------------------------- MODULE Lz ----------------------------------
(***************************************************************************)
(* The DS "LZ" token format, as used forwards by LZ10 files and backwards  *)
(* by compressed code.  A stream is read in groups: one flag byte (most    *)
(* significant bit first), then one item per flag: 0 = one literal byte,   *)
(* 1 = two bytes (len-3)<<4 | (disp-sub)>>8 , (disp-sub) & 0xFF meaning    *)
(* "repeat the len bytes produced disp bytes ago".                         *)
(*                                                                         *)
(* The machine below reads a stream against the output it is claimed to    *)
(* stand for, one item per transition.                                     *)
(*   w.ip   bytes of the stream consumed      w.op   bytes produced         *)
(*   w.bit  items of the current group read   w.flags current flag byte     *)
(*   w.err  "" or why the stream/output pair is wrong                       *)
(* Parameters: p.sub (1 LZ10, 3 code), p.n output size, p.m stream size,   *)
(* p.cmp FALSE to only check the shape (no output known).                  *)
(* In(i), Out(j): stream and output bytes in reading order, zero-based.    *)
(***************************************************************************)
EXTENDS Bytes

MinLen == 3
MaxLen == 18
MaxDisp(sub) == 4095 + sub

WalkInit == [ip |-> 0, op |-> 0, bit |-> 0, flags |-> 0, err |-> ""]
WalkDone(w, p) == w.err # "" \/ w.op >= p.n

WalkStep(w, p, In(_), Out(_)) ==
  IF w.bit = 0 /\ w.ip >= p.m THEN [w EXCEPT !.err = "illegal: stream ends before a flag byte"]
  ELSE
  LET f  == IF w.bit = 0 THEN In(w.ip) ELSE w.flags
      i  == IF w.bit = 0 THEN w.ip + 1 ELSE w.ip
      nb == (w.bit + 1) % 8
  IN IF (f \div Pow2(7 - w.bit)) % 2 = 0
     THEN IF i >= p.m THEN [w EXCEPT !.err = "illegal: stream ends before a literal"]
          ELSE IF p.cmp /\ In(i) # Out(w.op) THEN [w EXCEPT !.err = "mismatch: literal"]
          ELSE [ip |-> i + 1, op |-> w.op + 1, bit |-> nb, flags |-> f, err |-> ""]
     ELSE IF i + 1 >= p.m THEN [w EXCEPT !.err = "illegal: stream ends inside a reference"]
          ELSE LET len  == In(i) \div 16 + MinLen
                   disp == (In(i) % 16) * 256 + In(i + 1) + p.sub
               IN IF disp > w.op THEN [w EXCEPT !.err = "illegal: reference before the start"]
                  ELSE IF w.op + len > p.n THEN [w EXCEPT !.err = "illegal: reference past the end"]
                  ELSE IF p.cmp /\ \E q \in 0..(len-1) : Out(w.op + q) # Out(w.op + q - disp)
                       THEN [w EXCEPT !.err = "mismatch: reference"]
                  ELSE [ip |-> i + 2, op |-> w.op + len, bit |-> nb, flags |-> f, err |-> ""]

IllegalErr(err) == err \in {"illegal: stream ends before a flag byte", "illegal: stream ends before a literal",
    "illegal: stream ends inside a reference", "illegal: reference before the start",
    "illegal: reference past the end"}

(* ---- writing side: items -> bytes -------------------------------------- *)
ItemBytes(t, sub) == IF t.ref = 0 THEN <<t.v>>
                     ELSE <<(t.len - 3) * 16 + (t.disp - sub) \div 256, (t.disp - sub) % 256>>
GroupBytes(g, sub) ==
  <<SumTo([i \in 1..Len(g) |-> g[i].ref * Pow2(8 - i)], Len(g))>> \o Cat(Map(g, LAMBDA t : ItemBytes(t, sub)))
NGroups(items) == (Len(items) + 7) \div 8
StreamBytes(items, sub) ==
  Cat([g \in 1..NGroups(items) |-> GroupBytes(SubSeq(items, 8*g - 7, MinI(8*g, Len(items))), sub)])
(* output of an item sequence *)
RECURSIVE CopyN(_, _, _)
CopyN(out, disp, n) == IF n = 0 THEN out ELSE CopyN(Append(out, out[Len(out) + 1 - disp]), disp, n - 1)

(* ---- LZ10 file ---------------------------------------------------------- *)
Lz10Header(n) == <<16>> \o U24(n)
IsLz10(b) == Len(b) >= 4 /\ b[1] = 16
Lz10Size(b) == R24(b, 1)

(* ---- code files ---------------------------------------------------------- *)
(* footer ending `amt` bytes before the end of b:                            *)
(*   ... FF padding | u24 compressedLen | u8 headerLen | u32 extra | appended *)
CodeFooterAt(b, amt) ==
  LET e == Len(b) - amt IN
  /\ e >= 8
  /\ LET hl == At(b, e - 5)  cl == R24(b, e - 8) IN
     /\ hl >= 8 /\ hl <= cl /\ cl <= e
     /\ \A i \in (e - hl)..(e - 9) : At(b, i) = 255
(* amount of appended data, -1 if the data carries no footer *)
RECURSIVE CodeDetectFrom(_, _)
CodeDetectFrom(b, amt) == IF amt > 28 THEN -1
                          ELSE IF CodeFooterAt(b, amt) THEN amt ELSE CodeDetectFrom(b, amt + 4)
CodeDetect(b) == CodeDetectFrom(b, 0)
(* geometry of a code file with footer at amt *)
CodeGeo(b, amt) ==
  LET e == Len(b) - amt IN
  [hl |-> At(b, e - 5), cl |-> R24(b, e - 8), extra |-> R32(b, e - 4), end |-> e,
   pass |-> e - R24(b, e - 8), m |-> R24(b, e - 8) - At(b, e - 5)]
CodeOutLen(g) == g.end + g.extra - g.pass       \* bytes produced by the backwards stream
=============================================================================
