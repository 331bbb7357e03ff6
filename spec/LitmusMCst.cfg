CONSTANTS Ld = "sc" St = "rel" Rm = "sc"
INIT Init
NEXT Next
INVARIANTS Weak
CHECK_DEADLOCK FALSE
