INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT MaxLen = 3
CONSTANT Wide = TRUE
INVARIANTS RoundTrip Fixpoint Emit
