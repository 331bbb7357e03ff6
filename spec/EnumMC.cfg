CONSTANTS MaxScopes = 4 Top = 256
INIT Init
NEXT Next
INVARIANTS CutOK SplitOK
CHECK_DEADLOCK FALSE
