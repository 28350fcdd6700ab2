INIT Init
NEXT Next
CONSTANTS
 D = 3
 B = 1
 N = 2
INVARIANTS Faithful Emit
PROPERTIES Exact
CHECK_DEADLOCK FALSE
