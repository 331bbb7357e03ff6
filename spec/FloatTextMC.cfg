CONSTANTS P = 4
 W = 3
 KLo <- KLoDef
 KHi = 2
 DMax = 120
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
