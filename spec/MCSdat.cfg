INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT MaxLen = 2
CONSTANT Wide = FALSE
INVARIANTS RoundTrip Fixpoint Emit
