INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
CONSTANTS
 Kinds = {"mark","deny","abvar","abact","chTAB","pass"}
 Phases = {2,3}
 NRules = 2
 Calls = {}
 MaxCalls = 0
 Modes = {0}
 Defaults = "none"
 Plans <- PlansIv
