INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Wide = TRUE
INVARIANTS RoundTrip Bytewise Emit
