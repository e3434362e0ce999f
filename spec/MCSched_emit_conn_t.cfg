INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Kind = "conn"
 Choices = 2
INVARIANTS Same AllShown Emit
PROPERTIES RulesStay OthersStay

