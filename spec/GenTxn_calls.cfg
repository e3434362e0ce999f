INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
CONSTANTS
 Kinds = {"mark","allowp","allow"}
 Phases = {1,2,3,6}
 NRules = 2
 Calls = {}
 MaxCalls = 0
 Modes = {0}
 Defaults = "none"
 Plans <- PlansWild
