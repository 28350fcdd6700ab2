INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Step = 17
INVARIANTS MapInv PixelLaw Emit
