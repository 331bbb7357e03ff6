CONSTANTS Bytes = {0, 1, 15, 64, 127, 128, 240, 255}
 N = 5
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE
