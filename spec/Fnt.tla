---------------------------------- MODULE Fnt ----------------------------------
(***************************************************************************)
(* Filename tables.  A folder is                                           *)
(*   [first |-> ID of its first file, files |-> <<name, ...>>,             *)
(*    dirs |-> <<[name |-> name, sub |-> folder], ...>>]                   *)
(* with names as sequences of Latin-1 codes.                               *)
(***************************************************************************)
EXTENDS Bytes

EmptyFolder == [first |-> 0, files |-> <<>>, dirs |-> <<>>]
RECURSIVE FSize(_)
FSize(t) == 1 + SumTo([i \in 1..Len(t.dirs) |-> FSize(t.dirs[i].sub)], Len(t.dirs))
RECURSIVE FFiles(_)
FFiles(t) == Len(t.files) + SumTo([i \in 1..Len(t.dirs) |-> FFiles(t.dirs[i].sub)], Len(t.dirs))

NameOk(n) == Len(n) \in 1..127 /\ \A i \in 1..Len(n) : n[i] \in 0..255
RECURSIVE FStorable(_)
FStorable(t) == /\ t.first \in 0..65535
                /\ \A i \in 1..Len(t.files) : NameOk(t.files[i])
                /\ \A i \in 1..Len(t.dirs) : NameOk(t.dirs[i].name) /\ FStorable(t.dirs[i].sub)

(* ---- encoding ----------------------------------------------------------- *)
RootID == 61440
(* folders are numbered in depth-first order *)
SubIds(t, id) == [i \in 1..Len(t.dirs) |-> id + 1 + SumTo([j \in 1..Len(t.dirs) |-> FSize(t.dirs[j].sub)], i - 1)]
SubTable(t, ids) ==
  Cat(Map(t.files, LAMBDA n : <<Len(n)>> \o n))
  \o Cat([i \in 1..Len(t.dirs) |-> <<Len(t.dirs[i].name) + 128>> \o t.dirs[i].name \o U16(ids[i])])
  \o <<0>>
RECURSIVE FFlat(_, _, _)
FFlat(t, id, parent) ==
  LET ids == SubIds(t, id) IN
  <<[first |-> t.first, parent |-> parent, tab |-> SubTable(t, ids)]>>
  \o Cat([i \in 1..Len(t.dirs) |-> FFlat(t.dirs[i].sub, ids[i], id)])
FntEncode(t) ==
  LET fl == FFlat(t, RootID, FSize(t))
      lens == [i \in 1..Len(fl) |-> Len(fl[i].tab)]
  IN Cat([i \in 1..Len(fl) |-> U32(8 * Len(fl) + SumTo(lens, i - 1)) \o U16(fl[i].first) \o U16(fl[i].parent)])
     \o Cat([i \in 1..Len(fl) |-> fl[i].tab])

(* ---- decoding (any table, not only ones FntEncode writes) ------------------ *)
RECURSIVE FDec(_, _, _)
RECURSIVE FDecFrom(_, _, _, _)
FDecFrom(b, o, t, depth) ==
  LET c == At(b, o) n == c % 128 name == Slice(b, o + 1, n) IN
  IF c = 0 THEN t
  ELSE IF c < 128 THEN FDecFrom(b, o + 1 + n, [t EXCEPT !.files = Append(@, name)], depth)
  ELSE FDecFrom(b, o + 3 + n,
         [t EXCEPT !.dirs = Append(@, [name |-> name, sub |-> FDec(b, R16(b, o + 1 + n), depth + 1)])], depth)
FDec(b, id, depth) == FDecFrom(b, R32(b, 8 * (id % 4096)),
                        [first |-> R16(b, 8 * (id % 4096) + 4), files |-> <<>>, dirs |-> <<>>], depth)
FntDecode(b) == FDec(b, RootID, 0)

(* ---- looking up ------------------------------------------------------------ *)
(* options are sequences of length 0 or 1 *)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(p, i, cur) == IF i > Len(p) THEN <<cur>>
                        ELSE IF p[i] = 47 THEN <<cur>> \o SplitFrom(p, i + 1, <<>>)
                        ELSE SplitFrom(p, i + 1, Append(cur, p[i]))
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ s[1] = <<>> THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] = <<>> THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Parts(p) == TrimL(TrimR(SplitFrom(p, 1, <<>>)))
(* index of the first element satisfying P, 0 if none *)
FirstIx(s, P(_)) == LET S == {i \in 1..Len(s) : P(s[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

RECURSIVE WalkDir(_, _)
WalkDir(t, parts) ==                                        \* option of folder
  IF parts = <<>> THEN <<t>>
  ELSE LET i == FirstIx(t.dirs, LAMBDA d : d.name = parts[1])
       IN IF i = 0 THEN <<>> ELSE WalkDir(t.dirs[i].sub, Tail(parts))
IdOf(t, path) ==                                             \* option of ID
  LET ps == Parts(path) IN
  IF ps = <<>> THEN <<>>
  ELSE LET d == WalkDir(t, SubSeq(ps, 1, Len(ps) - 1)) IN
       IF d = <<>> THEN <<>>
       ELSE LET i == FirstIx(d[1].files, LAMBDA n : n = ps[Len(ps)])
            IN IF i = 0 THEN <<>> ELSE <<d[1].first + i - 1>>
SubfolderOf(t, path) == LET ps == Parts(path) IN IF ps = <<>> THEN <<>> ELSE WalkDir(t, ps)
RECURSIVE FilenameOf(_, _)
RECURSIVE FnInDirs(_, _, _)
FilenameOf(t, id) ==                                         \* option of path
  IF id >= t.first /\ id < t.first + Len(t.files) THEN <<t.files[id - t.first + 1]>>
  ELSE FnInDirs(t, id, 1)
FnInDirs(t, id, i) ==
  IF i > Len(t.dirs) THEN <<>>
  ELSE LET r == FilenameOf(t.dirs[i].sub, id)
       IN IF r # <<>> THEN <<t.dirs[i].name \o <<47>> \o r[1]>> ELSE FnInDirs(t, id, i + 1)

(* all paths of the tree, as <<path, id>> *)
RECURSIVE AllPaths(_, _)
AllPaths(t, prefix) ==
  [i \in 1..Len(t.files) |-> <<prefix \o t.files[i], t.first + i - 1>>]
  \o Cat([i \in 1..Len(t.dirs) |-> AllPaths(t.dirs[i].sub, prefix \o t.dirs[i].name \o <<47>>)])

(* ---- editing ---------------------------------------------------------------- *)
RECURSIVE AddAt(_, _, _, _)
AddAt(t, parts, newFiles, newDirs) ==
  IF parts = <<>> THEN [t EXCEPT !.files = @ \o newFiles, !.dirs = @ \o newDirs]
  ELSE LET i == FirstIx(t.dirs, LAMBDA d : d.name = parts[1])
       IN [t EXCEPT !.dirs[i].sub = AddAt(t.dirs[i].sub, Tail(parts), newFiles, newDirs)]
(* renumber files depth-first from `base` *)
RECURSIVE Number(_, _)
RECURSIVE NumberDirs(_, _, _)
Number(t, base) == [first |-> base, files |-> t.files, dirs |-> NumberDirs(t.dirs, 1, base + Len(t.files))]
NumberDirs(ds, i, base) ==
  IF i > Len(ds) THEN <<>>
  ELSE <<[name |-> ds[i].name, sub |-> Number(ds[i].sub, base)]>> \o NumberDirs(ds, i + 1, base + FFiles(ds[i].sub))
=============================================================================
