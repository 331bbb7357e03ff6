CONSTANTS Keys = {1, 2, 3} MaxLen = 5 Cutoffs = {1, 2, 3, 5}
SPECIFICATION Spec
INVARIANTS Inside AlwaysPermutation SortedAtEnd Searches
PROPERTY Terminates
CHECK_DEADLOCK FALSE
