INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Focus = "scr"
  MaxMsgs = 1
  MaxParts = 1
INVARIANTS RoundTrip Emit
