CONSTANTS N = 3 V = 5
INIT Init
NEXT Next
INVARIANTS Antisym Distances WindingOK
