CONSTANT Size = 6
INIT Init
NEXT Next
VIEW View
INVARIANT Inside
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
