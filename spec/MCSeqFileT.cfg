INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 6
  MaxSeqs = 2
INVARIANTS Stable ParseKeepsFile FirstsFound Emit
