INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "paste"
 Alpha = {97}
 MaxLen = 4
INVARIANT Emit
