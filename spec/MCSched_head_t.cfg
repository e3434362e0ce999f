INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 Kind = "head"
 Choices = 3
INVARIANTS Same AllShown 
PROPERTIES RulesStay OthersStay
VIEW Shown
