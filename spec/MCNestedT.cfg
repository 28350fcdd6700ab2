INIT Init
NEXT Next
CONSTANTS
 D = 2
 B = 2
 N = 3
INVARIANTS Faithful Emit
PROPERTIES Exact
CHECK_DEADLOCK FALSE
