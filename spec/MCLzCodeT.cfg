CONSTANTS Sub = 3
 MaxOut = 12
INIT Init
NEXT Next
INVARIANTS Functional SizeBound Emit
CHECK_DEADLOCK FALSE
