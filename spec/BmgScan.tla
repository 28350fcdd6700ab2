----------------------------------- MODULE BmgScan -----------------------------------
(***************************************************************************)
(* Reading one message out of the text section of a BMG file, character by  *)
(* character, whatever bytes are there.  A scan is [o, from, parts, res]:   *)
(* position, start of the current piece of text, pieces found, and the      *)
(* result: "" (going on), "ok" (terminator found) or "cut" (the message     *)
(* runs past the end of the section, or an escape says it has no length, so *)
(* it has to be refused).                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
Scan0(start) == [o |-> start, from |-> start, parts |-> <<>>, res |-> ""]
At0(d, i) == IF i < Len(d) THEN d[i + 1] ELSE 0
Char(d, w, i) == IF w = 1 THEN At0(d, i) ELSE At0(d, i) + 256 * At0(d, i + 1)
Piece(d, w, a, b) == IF a >= b THEN <<>> ELSE <<[esc |-> FALSE, type |-> 0, data |-> <<>>, text |-> [j \in 1..((b - a) \div w) |-> Char(d, w, a + w * (j - 1))]]>>
Bytes(d, a, b) == [j \in 1..(IF b > a THEN b - a ELSE 0) |-> At0(d, a + j - 1)]
ScanStep(d, w, s) ==
  IF s.o + w > Len(d) THEN [s EXCEPT !.res = "cut"]
  ELSE LET ch == Char(d, w, s.o) IN
       IF ch = 0 THEN [s EXCEPT !.res = "ok", !.parts = @ \o Piece(d, w, s.from, s.o)]
       ELSE IF ch # 26 THEN [s EXCEPT !.o = @ + w]
       ELSE IF s.o + w + 2 > Len(d) \/ At0(d, s.o + w) = 0 THEN [s EXCEPT !.res = "cut"]
       ELSE LET n == At0(d, s.o + w) IN
            [s EXCEPT !.parts = @ \o Piece(d, w, s.from, s.o) \o <<[esc |-> TRUE, type |-> At0(d, s.o + w + 1), data |-> Bytes(d, s.o + w + 2, s.o + n), text |-> <<>>]>>,
                      !.o = @ + n, !.from = s.o + n]
RECURSIVE ScanFrom(_, _, _)
ScanFrom(d, w, s) == IF s.res # "" THEN s ELSE ScanFrom(d, w, ScanStep(d, w, s))
=============================================================================
