INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Shift = 0
 MaxCalls = 5
INVARIANTS RightStep Once
