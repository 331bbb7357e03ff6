INIT TInit
NEXT TNext
INVARIANT Bounded
