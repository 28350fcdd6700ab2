INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Focus = "msg"
  MaxMsgs = 1
  MaxParts = 2
INVARIANTS RoundTrip Emit
