INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 5
  WithTracks = FALSE
  WithJunk = TRUE
INVARIANTS Laws Emit
