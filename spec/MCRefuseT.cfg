INIT Init
NEXT Next
CONSTANTS
 MaxW = 9
 Full = TRUE
INVARIANTS GuardExact OnlyOne FitsExact Emit
CHECK_DEADLOCK FALSE
