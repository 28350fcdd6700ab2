INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT MaxInst = 4
INVARIANTS RoundTrip Fixpoint Emit
