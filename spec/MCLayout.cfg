INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS ElInverse Size Anchor Emit
