----------------------------------- MODULE Print -----------------------------------
(***************************************************************************)
(* Printed forms.  Text is a list of code points.                           *)
(* ReadBytes reads a Python bytes literal; objects print as a call of one   *)
(* of their constructors (Ctors), so reading the print back has to give     *)
(* the same attributes.                                                     *)
(***************************************************************************)
EXTENDS Ctors
Bsl == 92   Quote == 39   DQuote == 34
Digit8(c) == c \in 48..55
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Simple(c) == CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 118 -> 11 [] c \in {Bsl, Quote, DQuote} -> c [] OTHER -> -1
Bad == <<FALSE, <<>>, 0>>
(* reads from position i (1-based) up to the closing quote q: <<ok, bytes, position after it>> *)
RECURSIVE Lit(_, _, _, _)
Lit(t, i, q, acc) ==
  IF i > Len(t) THEN Bad
  ELSE IF t[i] = q THEN <<TRUE, acc, i + 1>>
  ELSE IF t[i] # Bsl THEN (IF t[i] \in 32..126 THEN Lit(t, i + 1, q, Append(acc, t[i])) ELSE Bad)
  ELSE IF i = Len(t) THEN Bad
  ELSE LET c == t[i + 1] IN
    IF c = 120 THEN (IF i + 3 > Len(t) THEN Bad ELSE IF Hex(t[i + 2]) < 0 \/ Hex(t[i + 3]) < 0 THEN Bad ELSE Lit(t, i + 4, q, Append(acc, 16 * Hex(t[i + 2]) + Hex(t[i + 3]))))
    ELSE IF Digit8(c) THEN
      LET d2 == i + 2 <= Len(t) /\ Digit8(t[i + 2])
          d3 == d2 /\ i + 3 <= Len(t) /\ Digit8(t[i + 3])
          n == IF d3 THEN 3 ELSE IF d2 THEN 2 ELSE 1
          v == IF n = 3 THEN 64 * (c - 48) + 8 * (t[i + 2] - 48) + t[i + 3] - 48 ELSE IF n = 2 THEN 8 * (c - 48) + t[i + 2] - 48 ELSE c - 48
      IN Lit(t, i + 1 + n, q, Append(acc, v % 256))
    ELSE IF Simple(c) < 0 THEN Bad ELSE Lit(t, i + 2, q, Append(acc, Simple(c)))
ReadBytes(t) == IF Len(t) < 3 THEN Bad ELSE IF t[1] # 98 \/ t[2] \notin {Quote, DQuote} THEN Bad ELSE Lit(t, 3, t[2], <<>>)
Dots == <<46, 46, 46>>
(* bytes print as a literal of all of them, or of the beginning followed by three dots when there are more than 32 *)
BytesLaw(data, t) ==
  LET r == ReadBytes(t) IN
  IF ~r[1] THEN "not a bytes literal"
  ELSE IF Len(data) <= 32 THEN (IF r[2] # data THEN "printed bytes differ" ELSE IF r[3] # Len(t) + 1 THEN "text after the bytes" ELSE "")
  ELSE IF r[2] # SubSeq(data, 1, 32) THEN "printed bytes differ" ELSE IF SubSeq(t, r[3], Len(t)) # Dots THEN "missing dots" ELSE ""
(* ---- the listing of a folder [id, files, folders]: a line for each file and each folder inside, *)
(* with the number in at least four digits and the name, four spaces deeper for each level          *)
RECURSIVE Digits(_, _)
Digits(n, least) == IF n < 10 /\ least <= 1 THEN <<48 + n>> ELSE Digits(n \div 10, least - 1) \o <<48 + (n % 10)>>
Spaces(n) == [i \in 1..n |-> 32]
ListLine(id, depth, name) == Digits(id, 4) \o Spaces(4 * depth + 1) \o name
RECURSIVE ListLines(_, _), ListFolders(_, _, _)
ListFolders(f, depth, i) == IF i > Len(f.folders) THEN <<>>
  ELSE <<ListLine(f.folders[i].f.id, depth, f.folders[i].n \o <<47>>)>> \o ListLines(f.folders[i].f, depth + 1) \o ListFolders(f, depth, i + 1)
ListLines(f, depth) == [i \in 1..Len(f.files) |-> ListLine(f.id + i - 1, depth, f.files[i])] \o ListFolders(f, depth, 1)
(* ---- a printer that keeps the law (octal when no digit follows) *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
PrintByte(b, next) == IF b < 8 /\ next \notin 48..57 THEN <<Bsl, 48 + b>>
  ELSE IF b \in {Bsl, Quote} THEN <<Bsl, b>> ELSE IF b \in 32..126 THEN <<b>> ELSE <<Bsl, 120, HexDigit(b \div 16), HexDigit(b % 16)>>
RECURSIVE PrintFrom(_, _)
PrintFrom(data, i) == IF i > Len(data) THEN <<>> ELSE PrintByte(data[i], IF i < Len(data) THEN data[i + 1] ELSE 0) \o PrintFrom(data, i + 1)
PrintBytes(data) == <<98, Quote>> \o PrintFrom(IF Len(data) > 32 THEN SubSeq(data, 1, 32) ELSE data, 1) \o <<Quote>> \o (IF Len(data) > 32 THEN Dots ELSE <<>>)
=============================================================================
