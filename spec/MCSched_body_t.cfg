INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 Kind = "body"
 Choices = 2
INVARIANTS Same AllShown 
PROPERTIES RulesStay OthersStay
VIEW Shown
