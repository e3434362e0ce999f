SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 5
 MemLims = {0,3}
 Lims = {9}
INVARIANTS WholeOrAbort AbortReason NothingWithoutAccess SplitFree CountAgrees Partition NamesAgree Documented
PROPERTIES AbortStays FetchKeeps
