INIT Init
NEXT Next
VIEW GenView
CHECK_DEADLOCK FALSE
CONSTANTS
 MemLims = {2}
 Lims = {4}
 Chunks = {1,2}
 Reads = {2}
 MaxOps = 4
 Writes = 0
 Who = {"req","res"}
 Kinds = {"read","copy"}
INVARIANT Emit
