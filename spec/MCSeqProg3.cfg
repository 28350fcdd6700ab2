INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  WithTracks = TRUE
  WithJunk = TRUE
INVARIANTS Laws Emit
