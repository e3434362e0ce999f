INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Alpha = {97,98,10}
 MaxLen = 4
 Depth = 2
 Fl = {""}
INVARIANTS Emit CatIsSequence AltIsUnion
