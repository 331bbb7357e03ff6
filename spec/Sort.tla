--------------------------------- MODULE Sort --------------------------------
(* An array of items <<key, tag>> (tags make items distinguishable; only keys are compared), and the two things the
   library does with it: sort it, and search a sorted one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE a
\* (equations, or TLC recurses once for each element)
IsSorted(q) == TRUE = (\A j \in 1..Len(q) - 1 : q[j][1] <= q[j + 1][1])
Range(q) == {q[j] : j \in 1..Len(q)}
\* tags are unique, so equal length and equal ranges mean the same items
SamePerm(p, q) == Len(p) = Len(q) /\ Cardinality(Range(p)) = Len(p) /\ Range(p) = Range(q)
Load(q) == a' = q
SortTo(q) == IsSorted(q) /\ SamePerm(a, q) /\ a' = q
\* 0 based positions; the sorted range is cut at the first item not less than / greater than k
Lower(k, r) == r \in 0..Len(a) /\ TRUE = (\A j \in 1..r : a[j][1] < k) /\ (r < Len(a) => ~(a[r + 1][1] < k)) /\ UNCHANGED a
Upper(k, r) == r \in 0..Len(a) /\ TRUE = (\A j \in 1..r : ~(k < a[j][1])) /\ (r < Len(a) => k < a[r + 1][1]) /\ UNCHANGED a
=============================================================================
