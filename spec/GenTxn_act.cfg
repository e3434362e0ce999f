INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
CONSTANTS
 Kinds = {"block","grp","deny","denypass","pass","chTTT","stat"}
 Phases = {2,3}
 NRules = 2
 Calls = {}
 MaxCalls = 0
 Modes = {0}
 Defaults = "deny"
 Plans <- PlansIv
