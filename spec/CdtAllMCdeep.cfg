INIT Init
NEXT Next
CONSTANTS N = 3 Inner = 3
INVARIANTS Iff Converse
CHECK_DEADLOCK FALSE
