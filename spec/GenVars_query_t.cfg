INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "query"
 Alpha = {97,61,38,37,54,49,43,59}
 MaxLen = 5
 Sels = 1
INVARIANTS Emit GroupsWhole
