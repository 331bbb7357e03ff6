CONSTANTS N = 2 V = 4
INIT Init
NEXT Next
INVARIANTS Antisym Distances WindingOK
