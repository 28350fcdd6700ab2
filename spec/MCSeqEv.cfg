INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Wide = FALSE
INVARIANTS RoundTrip Bytewise Emit
