INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Alpha = {97,65,10}
 MaxLen = 3
 Depth = 1
 Fl = {"i", "m", "s", "U"}
INVARIANTS Emit
