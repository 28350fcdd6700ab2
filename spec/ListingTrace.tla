-------------------------------- MODULE ListingTrace --------------------------------
EXTENDS TraceBase, Listing
V(s, e) == IF e.exc # "" THEN "printing raised" ELSE ShowLaw(e)
TInit == TraceInit(LAMBDA t : 0)
TNext == TraceNext(V, LAMBDA s, e : s)
=============================================================================
