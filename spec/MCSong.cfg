INIT Init
NEXT Next
CONSTANTS
 Numbers = {3}
 Thorough = FALSE
INVARIANTS JoinInv SetInv Emit
CHECK_DEADLOCK FALSE
