--------------------------------- MODULE MCLz ---------------------------------
(* Exhaustive small instance: every item sequence producing at most MaxOut   *)
(* bytes over a two-letter alphabet.  Checked: the reading machine accepts   *)
(* each stream with exactly one output, the one its items denote; every      *)
(* emitted stream respects the size bound.  Every stream is written out as   *)
(* a case for the implementation.                                            *)
EXTENDS Lz, TLC, Json, IOUtils, CSV, FiniteSets
CONSTANTS Sub, MaxOut
VARIABLES items, out
Alphabet == {0, 1}
Init == items = <<>> /\ out = <<>>
Lit(a) == /\ Len(out) < MaxOut
          /\ items' = Append(items, [ref |-> 0, v |-> a, len |-> 0, disp |-> 0])
          /\ out' = Append(out, a)
Ref(len, disp) == /\ disp >= Sub /\ disp <= Len(out) /\ Len(out) + len <= MaxOut
                  /\ items' = Append(items, [ref |-> 1, v |-> 0, len |-> len, disp |-> disp])
                  /\ out' = CopyN(out, disp, len)
Next == (\E a \in Alphabet : Lit(a)) \/ (\E len \in 3..MaxOut, disp \in 1..MaxOut : Ref(len, disp))

RECURSIVE WalkAll(_, _, _, _)
WalkAll(w, p, s, o) == IF WalkDone(w, p) THEN w
                       ELSE WalkAll(WalkStep(w, p, LAMBDA i : s[i+1], LAMBDA j : o[j+1]), p, s, o)
Accepts(s, o) == WalkAll(WalkInit, [sub |-> Sub, n |-> Len(o), m |-> Len(s), cmp |-> TRUE], s, o).err = ""
Functional == LET s == StreamBytes(items, Sub)
              IN \A o \in [1..Len(out) -> Alphabet] : Accepts(s, o) <=> o = out
SizeBound == Len(StreamBytes(items, Sub)) <= Len(out) + (Len(items) + 7) \div 8
Emit == CSVWrite("%1$s", <<ToJson([s |-> StreamBytes(items, Sub), o |-> out,
    t |-> Map(items, LAMBDA t : IF t.ref = 0 THEN <<0, t.v, 0>> ELSE <<1, t.len, t.disp>>)])>>, IOEnv.CASES)
=============================================================================
