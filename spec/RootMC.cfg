CONSTANTS Max = 20000
INIT Init
NEXT Next
INVARIANTS Nearest Progress
CHECK_DEADLOCK FALSE
