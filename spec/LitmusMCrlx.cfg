CONSTANTS Ld = "rlx" St = "rlx" Rm = "rlx"
INIT Init
NEXT Next
INVARIANTS Weak
CHECK_DEADLOCK FALSE
