CONSTANTS Ld = "sc" St = "sc" Rm = "sc"
INIT Init
NEXT Next
INVARIANTS Atomic
CHECK_DEADLOCK FALSE
