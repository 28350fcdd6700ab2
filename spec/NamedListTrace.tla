------------------------------ MODULE NamedListTrace ------------------------------
EXTENDS TraceBase, NamedList
Raised(e) == e.exc # ""
Post(s, e) == CASE e.op = "list" -> e.obj [] e.op = "set" /\ Has(s, e.name) -> SetFirst(s, e.name, e.v) [] OTHER -> s
Same(e, l) == IF e.obj # l THEN "list contents wrong after " \o e.op ELSE ""
V(s, e) ==
  CASE e.op = "list" -> ""
    [] ~Has(s, e.name) -> (IF ~Raised(e) THEN "absent name was not refused" ELSE Same(e, s))
    [] Raised(e) -> "present name was refused"
    [] e.op = "index" -> (IF e.out # FirstIx(s, e.name) - 1 THEN "wrong index" ELSE Same(e, s))
    [] e.op = "find" -> (IF e.out # s[FirstIx(s, e.name)].v THEN "wrong value" ELSE Same(e, s))
    [] e.op = "set" -> Same(e, SetFirst(s, e.name, e.v))
TInit == TraceInit(LAMBDA t : <<>>)
TNext == TraceNext(V, Post)
=============================================================================
