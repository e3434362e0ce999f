INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "scan"
 Alpha = {32,34,39,92,10}
 MaxLen2 = 1
 MaxLen = 2
INVARIANTS RoundTrip

