SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Kinds = {"mark","deny","abvar","abact","chTAB","pass"}
 Phases = {2,3}
 NRules = 2
 Calls = {"reqh","reqb","res","abort"}
 MaxCalls = 4
 Modes = {0}
 Defaults = "none"
INVARIANTS OnceEach InItsCall Complete InOrder RunsWhenDue NothingLeft AllowedPast ActsOnlyIfAll StopsAtFirstFailure ActsIfAll ActionOrder NoLogLost AbortDisrupts OffIsSilent
PROPERTIES PhaseForward StartedOnce NextIsDue NoEvalAfterAllow QuietWhilePending DeniedIsPending ResultTakesAll VerdictKept StaysAborted AbortStatusKept NoEvalAfterAbort DetectKeepsVerdict 
