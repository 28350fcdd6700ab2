INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  WithTracks = FALSE
  WithJunk = TRUE
INVARIANTS Laws Emit
