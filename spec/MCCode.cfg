INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT MaxSecs = 2
INVARIANTS RoundTrip FixedPoint Emit
