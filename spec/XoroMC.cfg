CONSTANTS W = 6
 A = 5
 S = 2
 C = 3
INIT Init
NEXT Next
INVARIANT Alive
CHECK_DEADLOCK FALSE
