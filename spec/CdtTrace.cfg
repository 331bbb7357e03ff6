INIT TInit
NEXT TNext
VIEW View
