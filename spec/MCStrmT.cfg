INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxChans = 3
  MaxBlocks = 4
  MaxLen = 9
INVARIANTS RoundTrip Emit
