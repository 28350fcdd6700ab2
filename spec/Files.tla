----------------------------------- MODULE Files -----------------------------------
(***************************************************************************)
(* Loading from and saving to a file system.                                *)
(* A file system is a set of [p, t]: path (list of character codes) and     *)
(* contents (a token; equal tokens are equal bytes).                         *)
(* Missing directories are paths that cannot be written.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Has(fs, p) == \E f \in fs : f.p = p
At(fs, p) == (CHOOSE f \in fs : f.p = p).t
Put(fs, p, t) == {f \in fs : f.p # p} \cup {[p |-> p, t |-> t]}
(* the default output name: the last component with its extension replaced *)
LastOf(s, c) == LET S == {i \in 1..Len(s) : s[i] = c} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
WithExt(p, ext) ==
  LET sl == LastOf(p, 47)  dot == LastOf(p, 46) IN
  IF dot > sl + 1 /\ dot < Len(p) THEN SubSeq(p, 1, dot - 1) \o ext ELSE p \o ext
DotCmp == <<46, 99, 109, 112>>   DotDec == <<46, 100, 101, 99>>
OutPath(c) == IF c.out # <<>> THEN c.out[1] ELSE WithExt(c.in, IF c.cmd = "compress" THEN DotCmp ELSE DotDec)
(* laws: fs before, e the operation with its outcome, fs2 after *)
SaveLaw(fs, e, fs2) ==         \* e.mem: what saving to memory gives (<<>> if it fails); e.can: the path can be written
  IF e.mem = <<>> \/ ~e.can THEN (IF e.exc = "" THEN "a failing save reported success" ELSE IF fs2 # fs THEN "a failing save changed files" ELSE "")
  ELSE IF e.exc # "" THEN "saving raised"
  ELSE IF fs2 # Put(fs, e.path, e.mem[1]) THEN "the files are wrong after saving" ELSE ""
LoadLaw(fs, e, fs2) ==         \* e.mem: the object loading those bytes from memory gives (<<>> if that fails)
  IF fs2 # fs THEN "loading changed files"
  ELSE IF ~Has(fs, e.path) \/ e.mem = <<>> THEN (IF e.exc = "" THEN "loading should have failed" ELSE "")
  ELSE IF e.exc # "" THEN "loading raised"
  ELSE IF e.got # e.mem[1] THEN "loading gave another object" ELSE ""
CliLaw(fs, e, fs2) ==
  IF ~Has(fs, e.in) \/ e.mem = <<>> \/ ~e.can THEN (IF e.exc = "" THEN "a failing command reported success" ELSE IF fs2 # fs THEN "a failing command changed files" ELSE "")
  ELSE IF e.exc # "" THEN "the command failed"
  ELSE IF fs2 # Put(fs, OutPath(e), e.mem[1]) THEN "the files are wrong after the command" ELSE ""
=============================================================================
