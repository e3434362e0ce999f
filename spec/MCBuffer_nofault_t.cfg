SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MemLims = {0,2,4,6}
 Lims = {0,3,4,5}
 Chunks = {0,1,2,3}
 MaxOps = 7
 Faults = FALSE
INVARIANTS HoldsAccepted MemIsAll OneStream WithinLimit DiskOnlyBeyondMem ViewIsAll
PROPERTIES ReadsByPosition NoWriteAfterRead ErrorKeeps LimitExact FailureTaken
