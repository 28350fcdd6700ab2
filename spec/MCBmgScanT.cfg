SPECIFICATION Spec
CONSTANTS MaxLen = 6  Alphabet = {0, 1, 4, 26, 65}
INVARIANTS Found Same Emit
PROPERTIES Ends Forward
CHECK_DEADLOCK FALSE
