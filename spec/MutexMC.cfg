CONSTANTS NT = 3 NL = 1 Shared = TRUE
INIT Init
NEXT Next
VIEW mvars
INVARIANTS Safe Sane Progress Move
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
