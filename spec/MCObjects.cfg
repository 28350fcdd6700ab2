INIT Init
NEXT Next
CONSTANTS
 N = 5
 Max = 2
INVARIANTS Independent Emit
CHECK_DEADLOCK FALSE
