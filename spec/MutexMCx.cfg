CONSTANTS NT = 3 NL = 2 Shared = FALSE
INIT Init
NEXT Next
VIEW mvars
INVARIANTS Safe Sane Progress Move
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
