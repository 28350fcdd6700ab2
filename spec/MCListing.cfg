INIT Init
NEXT Next
CONSTANTS MaxEvents = 2  MaxLabels = 2  Names = {"a", "xyz", "a name that is longer than the label column is wide at most"}
INVARIANTS Holds Sharp Emit
CHECK_DEADLOCK FALSE
