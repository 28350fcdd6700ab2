INIT Init
NEXT Next
CONSTANTS
 Thorough = TRUE
INVARIANTS Law Emit
CHECK_DEADLOCK FALSE
