CONSTANTS Deep = 400
INIT Init
NEXT Next
INVARIANT Balanced
