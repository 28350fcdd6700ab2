-------------------------------- MODULE CtorsTrace --------------------------------
EXTENDS TraceBase, Ctors
Range(q) == {q[i] : i \in 1..Len(q)}
V(s, e) ==
  LET c == Table[e.ctor]  want == New(c, e.pos, Range(e.kw), e.vals)
      wrong == {i \in 1..Len(e.got) : e.got[i].v # want[e.got[i].a]} IN
  IF e.exc # "" THEN "constructor raised"
  ELSE IF {e.got[i].a : i \in 1..Len(e.got)} # Attrs(c) THEN "not every attribute was looked at"
  ELSE IF wrong # {} THEN "wrong value of " \o e.got[CHOOSE i \in wrong : TRUE].a
  ELSE IF e.op = "make" THEN "" ELSE "?"
TInit == TraceInit(LAMBDA t : 0)
TNext == TraceNext(V, LAMBDA s, e : s)
=============================================================================
