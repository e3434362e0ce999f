SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Kinds = {"block","grp","deny","denypass","pass","chTTT"}
 Phases = {2,3}
 NRules = 2
 Calls = {"reqh","reqb","res"}
 MaxCalls = 4
 Modes = {0}
 Defaults = "deny"
INVARIANTS OnceEach InItsCall Complete InOrder RunsWhenDue NothingLeft AllowedPast ActsOnlyIfAll StopsAtFirstFailure ActsIfAll ActionOrder NoLogLost AbortDisrupts OffIsSilent
PROPERTIES PhaseForward StartedOnce NextIsDue NoEvalAfterAllow QuietWhilePending DeniedIsPending ResultTakesAll VerdictKept StaysAborted AbortStatusKept NoEvalAfterAbort DetectKeepsVerdict 
