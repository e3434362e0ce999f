INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 NRules = 1
 Pool = {1,2,3,4,5,6,7,8,9,10,11,12,13}
 Traffics = {1,2,3,4}
 Acc = FALSE
INVARIANTS Prescribed OnlyDisruptedByRules DetectionNeverDenies Emit
PROPERTY RulesStay
