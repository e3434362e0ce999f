INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "load"
 Alpha = {97}
 MaxLen2 = 1
 MaxLen = 3
INVARIANTS AllOrNothing Concatenation LastWins InOrder
PROPERTY Atomic
