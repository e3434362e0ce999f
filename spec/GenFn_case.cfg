INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 T = "trans"
 Fns = {"none","lowercase","removeWhitespace","compressWhitespace","removeNulls","replaceNulls"}
 Alpha = {0,9,11,32,65,90,97,255}
 MaxLen = 3
INVARIANTS Emit Idempotent KeepsOthers NoRuns RoundTrip OnePass
