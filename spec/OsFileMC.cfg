CONSTANTS Windows = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANTS Owned
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
