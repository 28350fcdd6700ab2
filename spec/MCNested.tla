----------------------------------- MODULE MCNested -----------------------------------
(* Every nesting of depth up to D with up to B items per container, edited N times at every leaf, reopened or not in between. *)
EXTENDS Nested, Json, IOUtils, CSV
CONSTANTS D, B, N
VARIABLES b, t, hist, shape
Leaf == [k |-> "leaf", v |-> 0, kids |-> <<>>]
RECURSIVE Items(_)
Items(d) == {Leaf} \cup (IF d = 0 THEN {} ELSE LET S == Items(d - 1) IN
   {[k |-> "lz", v |-> 0, kids |-> <<x>>] : x \in {y \in S : y.k # "lz"}} \cup {[k |-> "box", v |-> 0, kids |-> q] : q \in UNION {[1..n -> S] : n \in 1..B}})
Roots == {[k |-> "box", v |-> 0, kids |-> q] : q \in UNION {[1..n -> Items(D - 1)] : n \in 1..B}}
Init == /\ t \in Roots /\ b = Pack(t) /\ hist = <<>> /\ shape = t
Next == /\ Len(hist) < N /\ shape' = shape
        /\ \E p \in LeafPaths(shape, <<>>), fresh \in BOOLEAN :
             /\ t' = PutAt(t, p, Len(hist) + 1)
             /\ b' = Repack(b, p, <<"b", Len(hist) + 1>>)
             /\ hist' = Append(hist, [p |-> p, fresh |-> fresh])
Faithful == Unpack(b) = t
Exact == [][Contents(t', <<>>) \ Contents(t, <<>>) = {[p |-> hist'[Len(hist')].p, v |-> Len(hist')]}]_<<t, hist>>
Emit == Len(hist) = N => CSVWrite("%1$s", <<ToJson([shape |-> shape, hist |-> hist])>>, IOEnv.CASES)
=============================================================================
