INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxNodes = 5
 Base = 3
INVARIANTS RoundTrip Bijective Emit
