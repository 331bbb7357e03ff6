CONSTANTS N = 200000
 K = 2
INIT Init
NEXT Next
INVARIANTS Same Canonical
CHECK_DEADLOCK FALSE
