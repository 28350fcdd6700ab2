INIT Init
NEXT Next
CONSTANTS
 Numbers = {1, 15}
 Thorough = TRUE
INVARIANTS JoinInv SetInv Emit
CHECK_DEADLOCK FALSE
