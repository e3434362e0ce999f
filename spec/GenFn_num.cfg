INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 T = "num"
 Fns = {"eq","ge","gt","le","lt"}
 Alpha = {32,43,45,48,49,57,97}
 MaxLen = 3
INVARIANTS Emit Trichotomy AsNumbers
