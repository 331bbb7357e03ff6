CONSTANTS
  Len0 = 5
  Pure = TRUE
INIT Init
NEXT Next
INVARIANTS SameProgram OnlyLess ErrorsStay LevelsApart Silent BreaksAgree
