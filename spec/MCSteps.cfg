INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Shift = 1
 MaxCalls = 5
INVARIANTS RightStep Once
