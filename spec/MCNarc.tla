--------------------------------- MODULE MCNarc ---------------------------------
(* All edit histories of length MaxOps over a small archive.                   *)
EXTENDS Narc, TLC, Json, IOUtils, CSV
CONSTANTS MaxOps
VARIABLES n, hist
Datas == {<<>>, <<7>>, <<1, 2, 3, 4>>, <<9, 8, 7, 6, 5>>}
Init == n = EmptyNarc /\ hist = <<>>
Op(o, path, d, big) == [op |-> o, path |-> path, data |-> d, big |-> big]
Add(d) == /\ n' = AddFile(n, <<>>, <<97 + Len(n.names.files)>>, d)
          /\ hist' = Append(hist, Op("add", <<97 + Len(n.names.files)>>, d, FALSE))
Set(p, d) == /\ HasFile(n, p) /\ n' = SetFile(n, p, d) /\ hist' = Append(hist, Op("set", p, d, FALSE))
Drop == /\ Len(n.files) > 0 /\ n' = DropLast(n) /\ hist' = Append(hist, Op("drop", <<>>, <<>>, FALSE))
Endian == /\ n' = [n EXCEPT !.big = ~@] /\ hist' = Append(hist, Op("endian", <<>>, <<>>, ~n.big))
Reopen == /\ hist # <<>> /\ hist[Len(hist)].op # "reopen" /\ n' = NarcDecode(NarcEncode(n)) /\ hist' = Append(hist, Op("reopen", <<>>, <<>>, FALSE))
Next == Len(hist) < MaxOps /\ ((\E d \in Datas : Add(d) \/ (\E p \in {<<97>>, <<98>>} : Set(p, d))) \/ Drop \/ Endian \/ Reopen)
Saved == NarcLayout(NarcEncode(n), n) = ""
ReopenKeeps == [][hist'[Len(hist')].op = "reopen" => n' = n]_<<n, hist>>
Frame == [][ (hist'[Len(hist')].op = "set") => (n'.names = n.names /\ \A i \in 1..Len(n.files) : n'.files[i] # n.files[i] => IdOf(n.names, hist'[Len(hist')].path) = <<i - 1>>) ]_<<n, hist>>
Emit == Len(hist) = MaxOps => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.CASES)
=============================================================================
