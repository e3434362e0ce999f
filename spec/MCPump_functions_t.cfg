CONSTANTS
  Alpha = {97, 65, 32, 0, 37, 43, 52, 126, 195}
  MaxLen = 5
  K = 20
INIT Init
NEXT Next
INVARIANT Functions
CHECK_DEADLOCK FALSE
