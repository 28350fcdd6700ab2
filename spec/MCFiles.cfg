INIT Init
NEXT Next
CONSTANTS
 N = 3
INVARIANTS Holds Only ExtOk Emit
CHECK_DEADLOCK FALSE
