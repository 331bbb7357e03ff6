CONSTANT W = 6
INIT Init
NEXT Next
INVARIANTS InRange Same Even
CHECK_DEADLOCK FALSE
