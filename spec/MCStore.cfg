INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxItems = 3
  MaxLen = 3
  MaxOps = 2
  Align = 2
  Room = 8
INVARIANTS ReadBack Overflow Emit
