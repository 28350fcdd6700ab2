INIT Init
NEXT Next
CONSTANTS
 MaxLen = 4
 MaxTime = 7
INVARIANTS MoveInv LoopInv Emit
CHECK_DEADLOCK FALSE
