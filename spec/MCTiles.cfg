INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Step = 257
INVARIANTS MapInv PixelLaw Emit
