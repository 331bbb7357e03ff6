CONSTANTS N = 4 KeySet = {0, 1, 2, 3, 4} Vals = {1, 2}
INIT Init
NEXT Next
VIEW View
INVARIANTS OK Refines
ACTION_CONSTRAINT Emit
