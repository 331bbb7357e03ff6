INIT Init
NEXT Next
INVARIANTS Converges Exact
CHECK_DEADLOCK FALSE
CONSTANTS
 RB = 7
 F = 9
 FZ = 6
 N = 9
 R = 6
