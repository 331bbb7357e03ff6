CONSTANTS Cap = 5 Keys = {1, 2, 3}
INIT Init
NEXT Next
VIEW View
INVARIANTS Bounded HeapIsBag HeadLeast
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK TRUE
