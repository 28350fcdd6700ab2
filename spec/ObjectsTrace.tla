----------------------------------- MODULE ObjectsTrace -----------------------------------
EXTENDS Objects, TraceBase
TInit == TraceInit(LAMBDA t : [obs |-> <<>>, buf |-> <<>>, out |-> <<>>])
TNext == TraceNext(Law, After)
=============================================================================
