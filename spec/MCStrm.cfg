INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxChans = 3
  MaxBlocks = 3
  MaxLen = 6
INVARIANTS RoundTrip Emit
