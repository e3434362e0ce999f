INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "text"
 Alpha = {97,32,34,92,10,110,39,9}
 MaxLen2 = 1
 MaxLen = 5
INVARIANTS NeverCutShort Total CrlfIsLf

