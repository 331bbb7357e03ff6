CONSTANTS F = 7
 T = 9
 Max = 60
INIT Init
NEXT Next
INVARIANTS Exact ResidualInv
CHECK_DEADLOCK FALSE
