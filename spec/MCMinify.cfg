INIT Init
NEXT Next
CONSTANTS
 Thorough = FALSE
INVARIANTS Law Emit
CHECK_DEADLOCK FALSE
