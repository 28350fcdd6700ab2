----------------------------------- MODULE MCRefuse -----------------------------------
(* Part 1: a header of every type and every one byte change of it: the guard refuses exactly the changes of marks.  *)
(* Part 2: numbers and field widths: Fits says exactly which numbers come back from a field of w bits.              *)
(* Part 3: cases for the implementation: every field with every size of number around its width.                    *)
EXTENDS Refuse, Json, IOUtils, CSV
CONSTANTS MaxW, Full
VARIABLES c, done
W32(n) == <<n % 256, n \div 256, 0, 0>>
Std(ty, ver) == Magic(ty) \o <<255, 254>> \o ver \o W32(64) \o <<16, 0, 1, 0>>
Sample(ty) ==
  CASE ty = "narc" -> Std(ty, <<1, 0>>) \o FATB \o W32(12) \o W32(0) \o FNTB \o W32(16) \o W32(8) \o <<0, 0, 1, 0>> \o FIMG \o W32(8)
    [] ty = "bmg" -> Magic(ty) \o W32(96) \o W32(2) \o <<2, 0, 0, 0>> \o W32(0) \o W32(0) \o W32(0) \o <<73, 78, 70, 49>> \o W32(32) \o W32(0) \o W32(0) \o W32(0) \o W32(0) \o W32(0) \o W32(0)
                     \o <<68, 65, 84, 49>> \o W32(32)
    [] ty = "lz10" -> <<16, 3, 0, 0, 0, 1, 2, 3>>
    [] ty = "sdat" -> Std(ty, <<0, 1>>) \o W32(0) \o W32(0) \o W32(48) \o W32(8) \o W32(56) \o W32(8) \o W32(0) \o W32(0) \o INFO \o W32(8) \o FAT \o W32(8)
    [] ty = "strm" -> Std(ty, <<0, 1>>) \o HEAD \o W32(12) \o W32(0) \o DATA \o W32(8)
    [] ty = "nsbtx" -> Std(ty, <<1, 0>>) \o W32(20) \o TEX0 \o W32(8)
    [] ty = "nsbmd" -> Std(ty, <<2, 0>>) \o W32(20) \o MDL0 \o W32(8)
    [] ty \in {"bnbl", "bncl"} -> Magic(ty) \o W32(0)
    [] OTHER -> Std(ty, <<0, 1>>) \o DATA \o W32(8)
(* positions of the marks in the samples *)
Marks(ty) ==
  LET v == IF ty \in {"bnbl", "bncl", "lz10", "bmg"} THEN {} ELSE 6..7
      m == 0..(Len(Magic(ty)) - 1)
      q == CASE ty = "narc" -> (16..19) \cup (28..31) \cup (44..47)
             [] ty = "bmg" -> (32..35) \cup (64..67)
             [] ty = "sdat" -> (48..51) \cup (56..59)
             [] ty = "strm" -> (16..19) \cup (28..31)
             [] ty \in {"nsbtx", "nsbmd"} -> 20..23
             [] ty \in {"sbnk", "ssar", "swav", "swar"} -> 16..19
             [] OTHER -> {}
  IN v \cup m \cup q
Header == \E ty \in Types : \E p \in Marks(ty) : \E b \in 0..255 : c' = [part |-> 1, ty |-> ty, p |-> p, b |-> b, ok |-> Guard(ty, Put(Sample(ty), p, <<b>>))]
P2(n) == 2^n
Bits(n) == CHOOSE k \in 0..20 : n < P2(k) /\ (k = 0 \/ n >= P2(k - 1))
Shape(n) == [neg |-> n < 0, bits |-> Bits(IF n < 0 THEN -1 - n ELSE n)]
Back(w, s, n) == LET u == ((n % P2(w)) + P2(w)) % P2(w) IN IF s /\ u >= P2(w - 1) THEN u - P2(w) ELSE u
Number == \E w \in 1..MaxW, s \in BOOLEAN, n \in (-P2(MaxW + 1))..P2(MaxW + 1) : c' = [part |-> 2, w |-> w, s |-> s, n |-> n]
FieldCase == \E i \in 1..Len(FieldTable), neg \in BOOLEAN :
   LET w == FieldTable[i].w IN
   \E b \in {x \in (IF w = Unlimited THEN {0, 1, 7, 8, 14, 20, 27} ELSE IF Full THEN 0..40 ELSE {0, 1, w - 2, w - 1, w, w + 1, w + 2, 40}) : x >= 0} :
      c' = [part |-> 3, key |-> FieldTable[i].key, neg |-> neg, bits |-> b]
Init == done = FALSE /\ c = [part |-> 0]
Next == ~done /\ done' = TRUE /\ (Header \/ Number \/ FieldCase)
GuardExact == (done /\ c.part = 1) => (c.ok <=> (Sample(c.ty)[c.p + 1] = c.b))
OnlyOne == (done /\ c.part = 1 /\ c.p = 0) => \A ty \in Types : ~ (ty # c.ty /\ Guard(ty, Sample(c.ty)))
FitsExact == (done /\ c.part = 2) => (Fits(c.w, c.s, Shape(c.n)) <=> Back(c.w, c.s, c.n) = c.n)
Emit == (done /\ c.part = 3) => CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.CASES)
=============================================================================
