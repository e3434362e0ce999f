INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "load"
 Alpha = {97}
 MaxLen = 3
INVARIANT Emit
