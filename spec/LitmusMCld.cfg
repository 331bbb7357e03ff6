CONSTANTS Ld = "acq" St = "sc" Rm = "sc"
INIT Init
NEXT Next
INVARIANTS Weak
CHECK_DEADLOCK FALSE
