INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 T = "num"
 Fns = {"eq","ge","gt","le","lt"}
 Alpha = {9,43,45,48,50}
 MaxLen = 5
INVARIANTS Emit Trichotomy AsNumbers
