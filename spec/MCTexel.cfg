INIT Init
NEXT Next
INVARIANTS Between Monotone Opacity Symmetric Short Alphas Nibbles Zero
CHECK_DEADLOCK FALSE
