INIT TInit
NEXT TNext
