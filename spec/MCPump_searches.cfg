CONSTANTS
  Alpha = {97, 65, 32, 0, 10, 126, 195}
  MaxLen = 4
  K = 20
INIT Init
NEXT Next
INVARIANT Searches
CHECK_DEADLOCK FALSE
