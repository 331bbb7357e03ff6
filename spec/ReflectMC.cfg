CONSTANTS Deep = 64
INIT Init
NEXT Next
INVARIANT Balanced
