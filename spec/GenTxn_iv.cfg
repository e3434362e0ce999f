INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
CONSTANTS
 Kinds = {"log","deny","denyx","stat","pass","denypass","no"}
 Phases = {2,3}
 NRules = 2
 Calls = {}
 MaxCalls = 0
 Modes = {0}
 Defaults = "none"
 Plans <- PlansIv
