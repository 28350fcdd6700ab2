INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxNodes = 6
 Base = 3
INVARIANTS RoundTrip Bijective Emit
