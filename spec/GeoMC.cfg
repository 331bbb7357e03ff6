CONSTANTS N = 3 MaxTris = 6
INIT Init
NEXT Next
INVARIANTS OneTriangle Planar
CHECK_DEADLOCK FALSE
