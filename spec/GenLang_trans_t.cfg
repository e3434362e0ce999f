INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "trans"
 Alpha = {97}
 MaxLen = 3
INVARIANT Emit
