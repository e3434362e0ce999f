INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Alpha = {97,98}
 MaxLen = 3
 Depth = 3
 Fl = {""}
INVARIANTS Emit CatIsSequence AltIsUnion
