INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 4
  MaxSeqs = 2
INVARIANTS Stable ParseKeepsFile FirstsFound Emit
