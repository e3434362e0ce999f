INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "limit"
 Alpha = {97}
 MaxLen = 1
 Sels = 1
INVARIANT Emit
