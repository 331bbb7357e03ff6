CONSTANTS Signed = FALSE
CONSTANT Operands = {128, 179, 254, 255, 0, 1, 2, 85, 127}
INIT Init
NEXT Next
VIEW View
INVARIANTS In Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
