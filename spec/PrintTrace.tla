-------------------------------- MODULE PrintTrace --------------------------------
EXTENDS TraceBase, Print
(* attributes the constructor fills *)
Filled(c) == {Table[c].params[i].attr : i \in 1..Len(Table[c].params)} \ {"-"}
Obj(q) == [a \in {q[i].a : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : q[i].a = a].v]
V(s, e) ==
  IF e.exc # "" THEN "printing raised"
  ELSE IF e.op = "bytes" THEN BytesLaw(e.data, e.text)
  ELSE IF e.op = "text" THEN (IF e.text = <<>> THEN "printed nothing" ELSE "")
  ELSE IF e.op = "list" THEN (IF e.lines # ListLines(e.folder, 0) THEN "the listing is not that of the folder" ELSE "")
  ELSE IF e.backexc # "" THEN "the print cannot be read back"
  ELSE IF e.op = "obj" /\ (DOMAIN Obj(e.want) # Filled(e.ctor) \/ DOMAIN Obj(e.back) # Filled(e.ctor)) THEN "not every attribute was looked at"
  ELSE IF Obj(e.want) # Obj(e.back) THEN "reading the print back gives another object" ELSE ""
TInit == TraceInit(LAMBDA t : 0)
TNext == TraceNext(V, LAMBDA s, e : s)
=============================================================================
