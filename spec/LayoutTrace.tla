------------------------------- MODULE LayoutTrace -------------------------------
EXTENDS TraceBase, Layout
Raised(e) == e.exc # ""
Diff(kind, x, y) == IF x.unk # y.unk THEN "unknown value" ELSE IF Len(x.els) # Len(y.els) THEN "number of elements"
  ELSE LET d == {i \in 1..Len(x.els) : x.els[i] # y.els[i]} IN IF d = {} THEN "" ELSE
       LET i == CHOOSE i \in d : TRUE  a == x.els[i]  b == y.els[i] IN
       IF a.x # b.x \/ a.y # b.y THEN "position" ELSE IF a.ha # b.ha \/ a.va # b.va THEN "alignment" ELSE "size or image"
Cl(p, d) == IF d = "" THEN "" ELSE p \o d
Post(s, e) == IF e.op \in {"load", "set"} THEN e.obj ELSE s
V(s, e) ==
  CASE e.op = "load" -> (IF Raised(e) THEN "loading raised" ELSE Cl("loaded wrong ", Diff(e.kind, e.obj, Decode(e.kind, e.data))))
    [] e.op = "set" -> (IF Raised(e) THEN "editing raised" ELSE Cl("construction gives wrong ", Diff(e.kind, e.obj, e.want)))
    [] e.op = "save" -> (IF \E i \in 1..Len(s.els) : ~ElOk(e.kind, s.els[i]) THEN (IF Raised(e) THEN "" ELSE "element that cannot be stored was not refused")
                         ELSE IF Raised(e) THEN "saving raised"
                         ELSE IF e.out # Encode(e.kind, s) THEN Cl("saved file has wrong ", IF Len(e.out) < 8 THEN "header" ELSE IF Diff(e.kind, Decode(e.kind, e.out), s) # "" THEN Diff(e.kind, Decode(e.kind, e.out), s) ELSE "bytes")
                         ELSE Cl("saving changed the ", Diff(e.kind, e.obj, s)))
    [] e.op = "corner" -> (IF Raised(e) THEN "top-left corner raised" ELSE IF e.out # TopLeft(s.els[e.i]) THEN "wrong top-left corner" ELSE "")
    [] e.op = "elsave" -> (IF Raised(e) THEN "saving an element raised" ELSE IF e.out # ElEncode(e.kind, s.els[e.i]) THEN "wrong element bytes" ELSE "")
TInit == TraceInit(LAMBDA t : [unk |-> 0, els |-> <<>>])
TNext == TraceNext(V, Post)
=============================================================================
