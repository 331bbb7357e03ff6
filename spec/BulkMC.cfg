CONSTANTS Cap = 3 Items = {1, 2}
INIT Init
NEXT Next
VIEW View
INVARIANT Bounded
PROPERTY RemovalKeepsRest
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
