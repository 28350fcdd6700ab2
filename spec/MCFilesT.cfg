INIT Init
NEXT Next
CONSTANTS
 N = 4
INVARIANTS Holds Only ExtOk Emit
CHECK_DEADLOCK FALSE
