CONSTANTS W = 3 G = 1
INIT Init
NEXT Next
INVARIANTS Safe EncodeOK
