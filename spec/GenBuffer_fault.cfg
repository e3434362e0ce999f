INIT Init
NEXT Next
VIEW GenView
CHECK_DEADLOCK FALSE
CONSTANTS
 MemLims = {0,2}
 Lims = {4}
 Chunks = {1,2}
 Reads = {3}
 MaxOps = 5
 Writes = 0
 Who = {"req"}
 Kinds = {"dir","copy"}
INVARIANT Emit
