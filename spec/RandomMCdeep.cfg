CONSTANT W = 9
INIT Init
NEXT Next
INVARIANTS InRange Same Even
CHECK_DEADLOCK FALSE
