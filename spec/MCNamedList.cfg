INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 3
  MaxOps = 2
INVARIANTS SetLaw Emit
