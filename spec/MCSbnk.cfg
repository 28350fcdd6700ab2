INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT MaxInst = 3
INVARIANTS RoundTrip Fixpoint Emit
