INIT Init
NEXT Next
VIEW GenView
CHECK_DEADLOCK FALSE
CONSTANTS
 MemLims = {0,2}
 Lims = {4,5}
 Chunks = {0,1,3}
 Reads = {1,3}
 MaxOps = 4
 Writes = 2
 Who = {"req"}
 Kinds = {"read","seek","copy","view"}
INVARIANT Emit
