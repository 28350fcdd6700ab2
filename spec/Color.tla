----------------------------------- MODULE Color -----------------------------------
(***************************************************************************)
(* Colors.  "int": 0..65535; "bytes": two bytes; "a1": <<r5,g5,b5,a1>>;      *)
(* "a5": <<r5,g5,b5,a5>>; "c8": <<r8,g8,b8,a8>>.                             *)
(***************************************************************************)
EXTENDS Bytes
Unpack(v) == <<v % 32, (v \div 32) % 32, (v \div 1024) % 32, v \div 32768>>
PackC(t) == t[1] + 32 * t[2] + 1024 * t[3] + 32768 * t[4]
Widen(c) == c * 8 + c \div 4
Abs(x) == IF x < 0 THEN -x ELSE x
(* n is the k-value nearest to v, given how k-values widen *)
Nearest5(n, v) == n \in 0..31 /\ \A m \in 0..31 : Abs(Widen(n) - v) <= Abs(Widen(m) - v)
Narrow(v) == ((v + 4) * 4) \div 33
(* alpha *)
A1of5(a) == IF a >= 16 THEN 1 ELSE 0
A1of8(a) == IF a >= 128 THEN 1 ELSE 0
A8of1(a) == 255 * a
A5of1(a) == 31 * a
(* everything but narrowing is a function *)
ToA1(f, x) == CASE f = "int" -> Unpack(x) [] f = "bytes" -> Unpack(x[1] + 256 * x[2]) [] f = "a1" -> x [] f = "a5" -> <<x[1], x[2], x[3], A1of5(x[4])>>
From5(t, c) == CASE t = "int" -> PackC(c) [] t = "bytes" -> U16(PackC(c)) [] t = "a1" -> c [] t = "a5" -> <<c[1], c[2], c[3], A5of1(c[4])>>
                 [] t = "c8" -> <<Widen(c[1]), Widen(c[2]), Widen(c[3]), A8of1(c[4])>>
(* the 5-bit color hidden in a value of format t *)
Un5(t, y) == CASE t = "int" -> Unpack(y) [] t = "bytes" -> Unpack(y[1] + 256 * y[2]) [] OTHER -> y
ConvOk(f, t, x, y) ==
  IF f = t THEN y = x
  ELSE IF f = "c8" THEN
    LET c == Un5(t, y) IN
    /\ Nearest5(c[1], x[1]) /\ Nearest5(c[2], x[2]) /\ Nearest5(c[3], x[3])
    /\ IF t = "a5" THEN Nearest5(c[4], x[4]) ELSE c[4] = A1of8(x[4])
  ELSE IF f = "a5" /\ t = "c8" THEN y = <<Widen(x[1]), Widen(x[2]), Widen(x[3]), Widen(x[4])>>
  ELSE y = From5(t, ToA1(f, x))
=============================================================================
