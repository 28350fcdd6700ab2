INIT Init
NEXT Next
CONSTANTS
 N = 6
 Max = 2
INVARIANTS Independent Emit
CHECK_DEADLOCK FALSE
