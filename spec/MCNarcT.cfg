INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 4
INVARIANTS Saved Emit
PROPERTIES ReopenKeeps Frame
