CONSTANTS Sub = 1
 MaxOut = 11
INIT Init
NEXT Next
INVARIANTS Functional SizeBound Emit
CHECK_DEADLOCK FALSE
