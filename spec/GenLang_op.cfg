INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "op"
 Alpha = {97}
 MaxLen = 1
INVARIANT Emit
