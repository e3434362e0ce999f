INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 2
 Kind = "head"
 Choices = 1
INVARIANTS Same AllShown Emit
PROPERTIES RulesStay OthersStay

