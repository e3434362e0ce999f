INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "scan"
 Alpha = {97,32,34,39,92,10,13}
 MaxLen2 = 1
 MaxLen = 3
INVARIANTS RoundTrip

