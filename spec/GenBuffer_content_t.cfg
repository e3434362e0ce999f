INIT Init
NEXT Next
VIEW GenView
CHECK_DEADLOCK FALSE
CONSTANTS
 MemLims = {0,2,9}
 Lims = {5}
 Chunks = {1,3}
 Reads = {0,1,3}
 MaxOps = 5
 Writes = 2
 Who = {"req"}
 Kinds = {"read","seek","copy","view"}
INVARIANT Emit
