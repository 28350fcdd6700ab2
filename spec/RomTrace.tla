------------------------------- MODULE RomTrace -------------------------------
(* Histories of one ROM. st = [r |-> ROM, img |-> last image opened]            *)
EXTENDS TraceBase, Rom
Raised(e) == e.exc # ""
WithFile(r, path, d) == [r EXCEPT !.files[IdOf(r.names, path)[1] + 1] = d]
Has(r, path) == LET i == IdOf(r.names, path) IN i # <<>> /\ i[1] < Len(r.files)
Post(s, e) ==
  CASE e.op = "new" -> [r |-> e.want, img |-> <<>>]
    [] e.op = "load" -> [r |-> [RomDecode(e.data) EXCEPT !.order = e.obj.order], img |-> <<>>]
    [] e.op = "save" -> (IF Raised(e) THEN s ELSE [s EXCEPT !.img = e.out])
    [] e.op = "reopen" -> [s EXCEPT !.r = e.obj]                 \* opens what was just saved
    [] e.op = "set" -> (IF Has(s.r, e.path) THEN [s EXCEPT !.r = WithFile(s.r, e.path, e.data)] ELSE s)
    [] e.op = "assign" -> [s EXCEPT !.r = e.want]
    [] OTHER -> s
DiffClause(d) == IF d = "" THEN "" ELSE "ROM does not hold the expected " \o d
V(s, e) ==
  CASE e.op \in {"new", "assign"} -> (IF Raised(e) THEN "editing raised" ELSE "")
    [] e.op = "load" -> (IF Raised(e) THEN "opening a valid image raised" ELSE 
                        LET d == RomDiff(e.obj, RomDecode(e.data)) IN
                        IF d # "" THEN DiffClause(d) ELSE IF ~OrderOk(Ext(e.data, HeaderLen), e.obj.order) THEN DiffClause("sortedFileIds") ELSE "")
    [] e.op = "save" -> (IF Raised(e) THEN "save raised" ELSE IF e.check THEN RomLayout(e.out, s.r) ELSE "")
    [] e.op = "reopen" -> (IF Raised(e) THEN "reopening raised" ELSE IF ~e.check THEN "" ELSE
                          LET d == RomDiff(e.obj, Norm(s.r, s.img)) IN
                          IF d # "" THEN DiffClause(d) ELSE IF ~OrderOk(s.img, e.obj.order) THEN DiffClause("sortedFileIds") ELSE "")
    [] e.op = "resave" -> (IF Raised(e) THEN "saving again raised" ELSE IF e.out # s.img THEN "saving a reopened ROM changes the image" ELSE "")
    [] e.op = "get" -> (IF Has(s.r, e.path) THEN (IF Raised(e) THEN "existing file refused"
                                                  ELSE IF e.out # s.r.files[IdOf(s.r.names, e.path)[1] + 1] THEN "wrong file read" ELSE "")
                        ELSE IF ~Raised(e) THEN "unknown name accepted" ELSE "")
    [] e.op = "set" -> (IF Has(s.r, e.path) /\ Raised(e) THEN "existing file refused"
                        ELSE IF ~Has(s.r, e.path) /\ ~Raised(e) THEN "unknown name accepted" ELSE "")
    [] e.op = "obs" -> (IF Raised(e) THEN "observing raised" ELSE IF e.obj.order # s.r.order THEN DiffClause("sortedFileIds") ELSE DiffClause(RomDiff(e.obj, s.r)))
    [] e.op = "keepcap" -> (IF Raised(e) THEN "save raised" ELSE IF e.inHeader # e.given \/ e.inObject # e.given THEN "device capacity changed without being asked for" ELSE "")
    [] e.op = "capacity" -> (IF Raised(e) THEN "save with capacity update raised"
                             ELSE IF e.inHeader # Capacity(e.size) THEN "device capacity is not the smallest that holds the image"
                             ELSE IF e.inObject # e.inHeader THEN "device capacity in header and object differ" ELSE "")
TInit == TraceInit(LAMBDA t : [r |-> <<>>, img |-> <<>>])
TNext == TraceNext(V, Post)
=============================================================================
