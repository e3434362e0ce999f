SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 6
 MemLims = {0,3,4,9}
 Lims = {3,4,9}
INVARIANTS WholeOrAbort AbortReason NothingWithoutAccess SplitFree CountAgrees Partition NamesAgree Documented
PROPERTIES AbortStays FetchKeeps
