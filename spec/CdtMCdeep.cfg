INIT Init
NEXT Next
CONSTANTS N = 4 MaxV = 7 MaxC = 5
INVARIANTS IsMesh Tiled Area Empty
PROPERTIES Falls Forget
CHECK_DEADLOCK FALSE
