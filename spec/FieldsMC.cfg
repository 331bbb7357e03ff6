CONSTANTS Max = 8
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE
