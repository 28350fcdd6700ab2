INIT Init
NEXT Next
CONSTANTS
 MaxTex = 2
 MaxPal = 2
 Wide2 = FALSE
INVARIANTS Law Emit
CHECK_DEADLOCK FALSE
