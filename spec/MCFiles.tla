----------------------------------- MODULE MCFiles -----------------------------------
(* All short histories of saves (working and failing), loads and commands over a few paths.  After every history each  *)
(* path holds what the last successful operation writing to it produced, and nothing else exists.                       *)
EXTENDS Files, Json, IOUtils, CSV
CONSTANTS N
VARIABLES fs, hist
Paths == {<<97>>, <<98, 46, 120>>}
Ops == {[op |-> "save", path |-> p, obj |-> o] : p \in Paths, o \in {1, 2}} \cup {[op |-> "bad", path |-> p, obj |-> 1] : p \in Paths}
       \cup {[op |-> "nodir", path |-> <<122, 47, 97>>, obj |-> 1]} \cup {[op |-> "load", path |-> p, obj |-> 0] : p \in Paths}
Init == fs = {} /\ hist = <<>>
Step(o) == IF o.op = "save" THEN Put(fs, o.path, o.obj) ELSE fs
Next == /\ Len(hist) < N
        /\ \E o \in Ops : fs' = Step(o) /\ hist' = Append(hist, o)
LastSave(p) == LET S == {i \in 1..Len(hist) : hist[i].op = "save" /\ hist[i].path = p} IN IF S = {} THEN 0 ELSE hist[CHOOSE i \in S : \A j \in S : j <= i].obj
Holds == \A p \in Paths : IF LastSave(p) = 0 THEN ~Has(fs, p) ELSE Has(fs, p) /\ At(fs, p) = LastSave(p)
Only == \A f \in fs : f.p \in Paths
Emit == Len(hist) = N => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.CASES)
ExtOk == /\ WithExt(<<97, 46, 98>>, DotCmp) = <<97, 46, 99, 109, 112>> /\ WithExt(<<46, 98>>, DotCmp) = <<46, 98, 46, 99, 109, 112>>
         /\ WithExt(<<97, 46, 98, 47, 99>>, DotDec) = <<97, 46, 98, 47, 99, 46, 100, 101, 99>> /\ WithExt(<<97, 46, 98, 46, 99>>, DotDec) = <<97, 46, 98, 46, 100, 101, 99>>
=============================================================================
