INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 3
INVARIANTS Saved Emit
PROPERTIES ReopenKeeps Frame
