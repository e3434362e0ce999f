INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "body"
 Alpha = {97,61,38,37,54,49}
 MaxLen = 4
 Sels = 1
INVARIANT Emit
