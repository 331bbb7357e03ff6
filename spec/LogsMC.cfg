CONSTANTS
  Len0 = 4
  Pure = TRUE
INIT Init
NEXT Next
INVARIANTS SameProgram OnlyLess ErrorsStay LevelsApart Silent BreaksAgree
