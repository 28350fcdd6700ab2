-------------------------------- MODULE StoreTrace --------------------------------
EXTENDS TraceBase, Store
AsFile(e) == [d |-> e.d, n |-> e.n, head |-> e.head]
FirstDiff(a, b) == IF \E i \in 1..Len(a) : a[i] # b[i] THEN CHOOSE i \in 1..Len(a) : a[i] # b[i] /\ \A j \in 1..i-1 : a[j] = b[j] ELSE 0
V(s, e) ==
  CASE e.exc # "" -> "raised: " \o e.op
    [] e.op = "make" -> (IF Len(e.d) # Len(e.n) THEN "driver" ELSE "")
    [] e.op \in {"put", "new", "del"} -> (IF CanEdit(s, e.op, e.i) THEN "" ELSE "driver")
    [] e.op = "open" -> (IF Len(e.d) # Len(s.d) THEN "number of items changed"
                         ELSE IF e.n # s.n THEN "length of an item changed: " \o ToString(FirstDiff(s.n, e.n))
                         ELSE IF e.d # s.d THEN "an item changed: " \o ToString(FirstDiff(s.d, e.d))
                         ELSE IF e.head # s.head THEN "head changed: " \o ToString(FirstDiff(s.head, e.head))
                         ELSE IF e.ext # <<>> /\ ~ExtentsFit(e.ext[1].of, s.n, e.ext[1].align, e.ext[1].lo, e.ext[1].hi) THEN "extents wrong"
                         ELSE IF \E i \in 1..Len(e.sizes) : e.sizes[i][1] # e.sizes[i][2] THEN "recorded size wrong"
                         ELSE "")
    [] e.op = "again" -> (IF e.a # e.b THEN "saving again gives other bytes" ELSE "")
    [] e.op = "disk" -> (IF e.a # e.b THEN "file on disk is not what saving gives" ELSE "")
    [] e.op = "find" -> (IF e.i \notin 1..Len(s.d) THEN "driver" ELSE IF e.d # s.d[e.i] \/ e.n # s.n[e.i] THEN "lookup gives another item" ELSE "")
Post(s, e) ==
  CASE e.op = "make" -> AsFile(e)
    [] e.op = "put" -> PutItem(s, e.i, e.d, e.n)
    [] e.op = "new" -> NewItem(s, e.i, e.d, e.n)
    [] e.op = "del" -> DelItem(s, e.i)
    [] OTHER -> s
TInit == TraceInit(LAMBDA t : Blank)
TNext == TraceNext(V, Post)
=============================================================================
