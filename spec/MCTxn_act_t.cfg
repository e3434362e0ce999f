SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Kinds = {"block","grp","deny","denypass","pass","chTTT","stat"}
 Phases = {2,3}
 NRules = 3
 Calls = {"reqh","reqb","res"}
 MaxCalls = 3
 Modes = {0}
 Defaults = "deny"
INVARIANTS OnceEach InItsCall Complete InOrder RunsWhenDue NothingLeft AllowedPast ActsOnlyIfAll StopsAtFirstFailure ActsIfAll ActionOrder NoLogLost AbortDisrupts OffIsSilent
PROPERTIES PhaseForward StartedOnce NextIsDue NoEvalAfterAllow QuietWhilePending DeniedIsPending ResultTakesAll VerdictKept StaysAborted AbortStatusKept NoEvalAfterAbort DetectKeepsVerdict 
