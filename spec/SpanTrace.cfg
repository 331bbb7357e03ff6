INIT TInit
NEXT TNext
INVARIANT Inside
