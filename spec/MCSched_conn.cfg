INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Kind = "conn"
 Choices = 1
INVARIANTS Same AllShown 
PROPERTIES RulesStay OthersStay
VIEW Shown
