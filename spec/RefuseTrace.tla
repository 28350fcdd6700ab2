----------------------------------- MODULE RefuseTrace -----------------------------------
EXTENDS Refuse, TraceBase
TInit == TraceInit(LAMBDA t : <<>>)
TNext == TraceNext(Law, LAMBDA s, e : s)
=============================================================================
