INIT Init
NEXT Next
INVARIANTS SignedWord Compose
CHECK_DEADLOCK FALSE
