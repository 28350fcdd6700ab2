INIT Init
NEXT Next
CONSTANTS Alphabet = {0, 7, 8, 10, 34, 39, 48, 55, 57, 92, 120, 255}  MaxLen = 3
INVARIANTS Holds Sharp Emit
CHECK_DEADLOCK FALSE
