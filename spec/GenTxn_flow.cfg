INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
CONSTANTS
 Kinds = {"mark","no","skip1","skip2","allow","allowp","allowr","chAL"}
 Phases = {2,3}
 NRules = 2
 Calls = {}
 MaxCalls = 0
 Modes = {0}
 Defaults = "none"
 Plans <- PlansFull
