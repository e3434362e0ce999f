INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 5
 Kind = "conn"
 Choices = 2
INVARIANTS Same AllShown 
PROPERTIES RulesStay OthersStay
VIEW Shown
