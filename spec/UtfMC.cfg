INIT Init
NEXT Next
INVARIANTS Right Units
CONSTANT Stride = 11
