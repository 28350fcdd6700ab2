INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxItems = 3
  MaxLen = 3
  MaxOps = 3
  Align = 2
  Room = 8
INVARIANTS ReadBack Overflow Emit
