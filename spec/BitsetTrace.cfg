INIT TInit
NEXT TNext
INVARIANT TypeOK
