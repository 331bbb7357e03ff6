CONSTANTS Cap = 3 NQ = 2 Items = {1} MaxHeld = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS Conservation Refines NoLeak
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
