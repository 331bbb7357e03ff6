CONSTANTS Max = 10
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE
