INIT Init
NEXT Next
CONSTANTS N = 4 MaxV = 6 MaxC = 5
INVARIANTS IsMesh Tiled Area Empty
PROPERTIES Falls Forget
CHECK_DEADLOCK FALSE
