------------------------------- MODULE NarcTrace -------------------------------
(* Histories of one NARC object.  st = the archive; e.obj = observed state     *)
(* after the event.                                                            *)
EXTENDS TraceBase, Narc
Raised(e) == e.exc # ""
Post(s, e) == CASE e.op = "new" -> e.want
                [] e.op = "load" -> NarcDecode(e.data)
                [] e.op = "assign" -> e.want                     \* direct attribute edits made by the driver
                [] e.op = "set" /\ HasFile(s, e.path) -> SetFile(s, e.path, e.data)
                [] OTHER -> s
NVerdict(s, e) ==
  LET v ==
    CASE e.op \in {"new", "assign"} -> (IF Raised(e) THEN "editing raised" ELSE "")
      [] e.op = "load" -> (IF Raised(e) THEN "load raised" ELSE "")
      [] e.op = "save" -> (IF Raised(e) THEN "save raised" ELSE NarcLayout(e.out, s))
      [] e.op = "get" -> (IF HasFile(s, e.path) THEN (IF Raised(e) THEN "existing file refused" ELSE IF e.out # GetFile(s, e.path) THEN "wrong file read" ELSE "")
                          ELSE IF ~Raised(e) THEN "unknown name accepted" ELSE "")
      [] e.op = "set" -> (IF HasFile(s, e.path) /\ Raised(e) THEN "existing file refused"
                          ELSE IF ~HasFile(s, e.path) /\ ~Raised(e) THEN "unknown name accepted" ELSE "")
  IN IF v # "" THEN v
     ELSE LET p == Post(s, e) IN
          CASE e.obj.files # p.files -> "files are not the expected ones afterwards"
            [] e.obj.names # p.names -> "names are not the expected ones afterwards"
            [] e.obj.big # p.big -> "header endianness is not the expected one afterwards"
            [] OTHER -> ""
TInit == TraceInit(LAMBDA t : EmptyNarc)
TNext == TraceNext(NVerdict, Post)
=============================================================================
