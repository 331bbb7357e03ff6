CONSTANTS Windows = TRUE
INIT TInit
NEXT TNext
