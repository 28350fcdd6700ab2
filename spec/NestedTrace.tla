----------------------------------- MODULE NestedTrace -----------------------------------
EXTENDS Nested, TraceBase
TInit == TraceInit(LAMBDA t : {})
TNext == TraceNext(Law, After)
=============================================================================
