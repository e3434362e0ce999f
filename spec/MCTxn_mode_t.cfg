SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Kinds = {"deny","allow","skip1","block","abact","chTT","moff","mdet","mon"}
 Phases = {2,3}
 NRules = 2
 Calls = {"conn","reqh","reqb","log","res","mode"}
 MaxCalls = 5
 Modes = {0,1,2}
 Defaults = "deny"
INVARIANTS OnceEach InItsCall Complete InOrder RunsWhenDue NothingLeft AllowedPast ActsOnlyIfAll StopsAtFirstFailure ActsIfAll ActionOrder NoLogLost AbortDisrupts OffIsSilent
PROPERTIES PhaseForward StartedOnce NextIsDue NoEvalAfterAllow QuietWhilePending DeniedIsPending ResultTakesAll VerdictKept StaysAborted AbortStatusKept NoEvalAfterAbort DetectKeepsVerdict 
