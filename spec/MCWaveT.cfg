INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxWaves = 3
  MaxSteps = 4
INVARIANTS RoundTrip Single Emit
