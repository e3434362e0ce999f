INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "arg"
 Alpha = {97,32,34,39,92,10,13,110}
 MaxLen = 3
INVARIANT Emit
