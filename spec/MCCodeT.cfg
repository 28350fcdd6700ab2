INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT MaxSecs = 3
INVARIANTS RoundTrip FixedPoint Emit
