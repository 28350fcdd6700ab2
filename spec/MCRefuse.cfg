INIT Init
NEXT Next
CONSTANTS
 MaxW = 6
 Full = FALSE
INVARIANTS GuardExact OnlyOne FitsExact Emit
CHECK_DEADLOCK FALSE
