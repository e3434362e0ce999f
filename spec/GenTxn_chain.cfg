INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
CONSTANTS
 Kinds = {"mark","chTT","chTF","chFT","chTTT","chTFT","chTAB","deny"}
 Phases = {2,3}
 NRules = 2
 Calls = {}
 MaxCalls = 0
 Modes = {0}
 Defaults = "none"
 Plans <- PlansFull
