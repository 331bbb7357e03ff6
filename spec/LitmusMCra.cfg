CONSTANTS Ld = "acq" St = "rel" Rm = "ar"
INIT Init
NEXT Next
INVARIANTS Weak
CHECK_DEADLOCK FALSE
