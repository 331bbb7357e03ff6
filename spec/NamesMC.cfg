CONSTANTS Chars = {97, 32, 44, 40, 41, 34, 39, 92}
 N = 6
INIT Init
NEXT Next
INVARIANT Same
CHECK_DEADLOCK FALSE
