INIT Init
NEXT Next
VIEW GenView
CHECK_DEADLOCK FALSE
CONSTANTS
 MemLims = {0,2,9}
 Lims = {0,3,5}
 Chunks = {0,1,2,3}
 Reads = {2}
 MaxOps = 4
 Writes = 0
 Who = {"req"}
 Kinds = {"read"}
INVARIANT Emit
