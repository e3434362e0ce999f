INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 T = "trans"
 Fns = {"urlDecode","urlDecodeUni"}
 Alpha = {37,52,49,43,117}
 MaxLen = 5
INVARIANTS Emit Idempotent KeepsOthers NoRuns RoundTrip OnePass
