INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 T = "trans"
 Fns = {"urlDecode","urlDecodeUni"}
 Alpha = {37,52,70,117,103}
 MaxLen = 6
INVARIANTS Emit Idempotent KeepsOthers NoRuns RoundTrip OnePass
