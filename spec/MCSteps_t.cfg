INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Shift = 1
 MaxCalls = 7
INVARIANTS RightStep Once
