INIT TInit
NEXT TNext
INVARIANT Conservation
