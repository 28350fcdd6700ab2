---------------------------------- MODULE Layout ----------------------------------
(***************************************************************************)
(* Button layouts (BNBL) and cell layouts (BNCL).                           *)
(* Element: [x, y, ha, va, w, h, img]; ha/va = 0 start, 1 centre, 2 end;     *)
(* w, h used by BNBL, img (4 bytes) by BNCL.                                 *)
(***************************************************************************)
EXTENDS Bytes, TLC
Pack(v, a) == v + 4096 * a
Align(p) == LET a == (p \div 4096) % 4 IN IF a = 3 THEN 0 ELSE a
Pos(p) == p % 4096
ElOk(kind, e) == kind = "bnbl" => e.w \in 0..255 /\ e.h \in 0..255
ElEncode(kind, e) == U16(Pack(e.x, e.ha)) \o U16(Pack(e.y, e.va)) \o (IF kind = "bnbl" THEN <<e.w, e.h>> ELSE e.img)
ElSize(kind) == IF kind = "bnbl" THEN 6 ELSE 8
ElDecode(kind, b, o) == LET xp == R16(b, o)  yp == R16(b, o + 2) IN
  [x |-> Pos(xp), y |-> Pos(yp), ha |-> Align(xp), va |-> Align(yp),
   w |-> IF kind = "bnbl" THEN At(b, o + 4) ELSE 0, h |-> IF kind = "bnbl" THEN At(b, o + 5) ELSE 0,
   img |-> IF kind = "bnbl" THEN Zeros(4) ELSE Slice(b, o + 4, 4)]
Magic(kind) == <<74, 78, IF kind = "bnbl" THEN 66 ELSE 67, 76>>
Encode(kind, f) == Magic(kind) \o U16(f.unk) \o U16(Len(f.els)) \o Cat([i \in 1..Len(f.els) |-> ElEncode(kind, f.els[i])])
Decode(kind, b) == [unk |-> R16(b, 4), els |-> [i \in 1..R16(b, 6) |-> ElDecode(kind, b, 8 + ElSize(kind) * (i - 1))]]
(* top-left corner, rounding as the game does *)
Corner(p, size, a) == CASE a = 0 -> p [] a = 1 -> p - ((size + 1) \div 2) [] a = 2 -> p - size
TopLeft(e) == <<Corner(e.x, e.w, e.ha), Corner(e.y, e.h, e.va)>>
=============================================================================
