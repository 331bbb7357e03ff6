CONSTANTS Deep = 11
 Wide = 4
INIT Init
NEXT Next
INVARIANTS RoundTrip CopyInv ManyLits ManySpans CopyOn
CHECK_DEADLOCK FALSE
