----------------------------------- MODULE FilesTrace -----------------------------------
EXTENDS Files, TraceBase
Fs(l) == {l[i] : i \in 1..Len(l)}
V(s, e) == LET fs2 == Fs(e.fs) IN
  IF Cardinality(fs2) # Len(e.fs) THEN "duplicate path"
  ELSE CASE e.op = "given" -> ""
    [] e.op = "save" -> SaveLaw(s, e, fs2)
    [] e.op = "load" -> LoadLaw(s, e, fs2)
    [] e.op = "cli" -> CliLaw(s, e, fs2)
    [] e.op = "usage" -> (IF fs2 # s THEN "the files changed" ELSE "")
TInit == TraceInit(LAMBDA t : {})
TNext == TraceNext(V, LAMBDA s, e : Fs(e.fs))
=============================================================================
