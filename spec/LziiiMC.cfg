CONSTANTS Deep = 9
 Wide = 3
INIT Init
NEXT Next
INVARIANTS RoundTrip CopyInv ManyLits ManySpans CopyOn
CHECK_DEADLOCK FALSE
