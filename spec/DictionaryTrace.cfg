INIT TInit
NEXT TNext
INVARIANT OK
