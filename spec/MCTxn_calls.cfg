SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Kinds = {"mark","allowp","allow"}
 Phases = {1,2,3,6}
 NRules = 2
 Calls = {"conn","reqh","reqb","resh","resb","log"}
 MaxCalls = 4
 Modes = {0}
 Defaults = "none"
INVARIANTS OnceEach InItsCall Complete InOrder RunsWhenDue NothingLeft AllowedPast ActsOnlyIfAll StopsAtFirstFailure ActsIfAll ActionOrder NoLogLost AbortDisrupts OffIsSilent
PROPERTIES PhaseForward StartedOnce NextIsDue NoEvalAfterAllow QuietWhilePending DeniedIsPending ResultTakesAll VerdictKept StaysAborted AbortStatusKept NoEvalAfterAbort DetectKeepsVerdict Returns
