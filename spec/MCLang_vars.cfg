INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "vars"
 Alpha = {97}
 MaxLen2 = 1
 MaxLen = 3
INVARIANTS OneSelection

