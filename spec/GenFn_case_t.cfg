INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 T = "trans"
 Fns = {"none","lowercase","removeWhitespace","compressWhitespace","removeNulls","replaceNulls"}
 Alpha = {0,10,13,32,64,65,91,128}
 MaxLen = 4
INVARIANTS Emit Idempotent KeepsOthers NoRuns RoundTrip OnePass
