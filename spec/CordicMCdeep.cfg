INIT Init
NEXT Next
INVARIANTS Converges Exact
CHECK_DEADLOCK FALSE
CONSTANTS
 RB = 8
 F = 11
 FZ = 8
 N = 11
 R = 20
