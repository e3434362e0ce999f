INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Alpha = {97,98,10}
 MaxLen = 3
 Depth = 2
 Fl = {""}
INVARIANTS Emit CatIsSequence AltIsUnion
