CONSTANT K = 7
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE
