INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Focus = "msg"
  MaxMsgs = 2
  MaxParts = 1
INVARIANTS RoundTrip Emit
