-------------------------------- MODULE BmgScanTrace --------------------------------
EXTENDS TraceBase, BmgScan
V(s, e) == LET r == ScanFrom(e.d, e.w, Scan0(e.start)) IN
  IF r.res = "cut" THEN (IF e.exc = "HANG" THEN "opening never ended" ELSE IF e.exc = "" THEN "a message that runs past the end was read" ELSE "")
  ELSE IF e.exc # "" THEN "a complete message was refused"
  ELSE IF e.parts # r.parts THEN "message read wrong" ELSE ""
TInit == TraceInit(LAMBDA t : 0)
TNext == TraceNext(V, LAMBDA s, e : s)
=============================================================================
