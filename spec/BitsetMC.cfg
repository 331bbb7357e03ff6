CONSTANT Size = 9
INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK Refines
PROPERTY Frame
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
