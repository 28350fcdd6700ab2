--------------------------------- MODULE MCFnt ---------------------------------
(* All folder trees with at most MaxNodes files and folders (below the root). *)
EXTENDS Fnt, TLC, Json, IOUtils, CSV, FiniteSets
CONSTANTS MaxNodes, Base
VARIABLE t
Nodes(x) == FSize(x) - 1 + FFiles(x)
RECURSIVE DirPaths(_)
DirPaths(x) == {<<>>} \cup UNION {{<<x.dirs[i].name>> \o p : p \in DirPaths(x.dirs[i].sub)} : i \in 1..Len(x.dirs)}
Init == t = EmptyFolder
At_(p) == WalkDir(t, p)[1]
AddFile(p) == t' = AddAt(t, p, <<<<97 + Len(At_(p).files)>>>>, <<>>)
AddDir(p) == t' = AddAt(t, p, <<>>, <<[name |-> <<97 + Len(At_(p).dirs)>>, sub |-> EmptyFolder]>>)
Next == Nodes(t) < MaxNodes /\ \E p \in DirPaths(t) : AddFile(p) \/ AddDir(p)

RoundTrip == LET n == Number(t, Base) IN FntDecode(FntEncode(n)) = n
Bijective ==
  LET n == Number(t, Base)
      ps == AllPaths(n, <<>>)
  IN /\ \A i \in 1..Len(ps) : IdOf(n, ps[i][1]) = <<ps[i][2]>> /\ FilenameOf(n, ps[i][2]) = <<ps[i][1]>>
     /\ {ps[i][2] : i \in 1..Len(ps)} = Base..(Base + Len(ps) - 1)
     /\ \A id \in (Base - 2)..(Base + Len(ps) + 1) : FilenameOf(n, id) # <<>> <=> id \in Base..(Base + Len(ps) - 1)
Emit == CSVWrite("%1$s", <<ToJson(Number(t, Base))>>, IOEnv.CASES)
=============================================================================
