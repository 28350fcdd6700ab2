INIT Init
NEXT Next
CONSTANTS MaxKw = 9
INVARIANTS Right Shape Emit
CHECK_DEADLOCK FALSE
