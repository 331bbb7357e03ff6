CONSTANTS Windows = FALSE
INIT TInit
NEXT TNext
