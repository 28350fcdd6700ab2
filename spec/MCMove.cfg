INIT Init
NEXT Next
CONSTANTS
 MaxLen = 2
 MaxTime = 5
INVARIANTS MoveInv LoopInv Emit
CHECK_DEADLOCK FALSE
