INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  MaxOps = 3
INVARIANTS SetLaw Emit
