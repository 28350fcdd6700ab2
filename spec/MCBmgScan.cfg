SPECIFICATION Spec
CONSTANTS MaxLen = 5  Alphabet = {0, 1, 3, 4, 26, 65}
INVARIANTS Found Same Emit
PROPERTIES Ends Forward
CHECK_DEADLOCK FALSE
