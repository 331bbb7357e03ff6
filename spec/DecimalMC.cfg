CONSTANTS N = 20000
 K = 0
INIT Init
NEXT Next
INVARIANTS Same Canonical
CHECK_DEADLOCK FALSE
