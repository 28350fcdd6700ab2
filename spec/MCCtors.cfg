INIT Init
NEXT Next
CONSTANTS MaxKw = 2
INVARIANTS Right Shape Emit
CHECK_DEADLOCK FALSE
