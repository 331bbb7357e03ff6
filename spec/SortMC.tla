-------------------------------- MODULE SortMC -------------------------------
(* intro_sort as a machine over a set of pending ranges (any order of the two recursive calls): ranges shorter than
   the cutoff are insertion sorted, others are partitioned around a median of three. *)
EXTENDS Sort
CONSTANTS Keys, MaxLen, Cutoffs
VARIABLES a0, todo, cut
vars == <<a, a0, todo, cut>>
Swap(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
Lt(q, i, j) == q[i][1] < q[j][1]
\* median: a = lo, b = hi (gets the median), c = mid
Median(q, x, y, z) ==
    IF Lt(q, x, y) THEN (IF Lt(q, y, z) THEN q ELSE IF Lt(q, x, z) THEN Swap(q, y, z) ELSE Swap(q, y, x))
    ELSE (IF Lt(q, z, y) THEN q ELSE IF Lt(q, x, z) THEN Swap(q, y, x) ELSE Swap(q, y, z))
RECURSIVE Scan(_, _, _, _)
\* Lomuto: items below the pivot (at hi) are swapped to the front
Scan(q, p, j, hi) == IF j = hi THEN [q |-> Swap(q, p, hi), p |-> p]
                     ELSE IF q[j][1] < q[hi][1] THEN Scan(Swap(q, p, j), p + 1, j + 1, hi) ELSE Scan(q, p, j + 1, hi)
Part(q, lo, hi) == Scan(Median(q, lo, hi, lo + (hi - lo + 1) \div 2), lo, lo, hi)
RECURSIVE Sink(_, _, _)
Sink(q, lo, j) == IF j > lo /\ q[j][1] < q[j - 1][1] THEN Sink(Swap(q, j, j - 1), lo, j - 1) ELSE q
RECURSIVE Ins(_, _, _, _)
Ins(q, lo, j, hi) == IF j > hi THEN q ELSE Ins(Sink(q, lo, j), lo, j + 1, hi)
Init == /\ \E n \in 0..MaxLen : \E f \in [1..n -> Keys] : a0 = [j \in 1..n |-> <<f[j], j>>]
        /\ a = a0 /\ todo = {<<1, Len(a0)>>} /\ cut \in Cutoffs
Next == \E r \in todo : LET lo == r[1] hi == r[2] n == hi - lo + 1 IN
          IF n < cut THEN a' = Ins(a, lo, lo, hi) /\ todo' = todo \ {r} /\ UNCHANGED <<a0, cut>>
          ELSE LET x == Part(a, lo, hi) IN a' = x.q /\ todo' = (todo \ {r}) \cup {<<lo, x.p - 1>>, <<x.p + 1, hi>>} /\ UNCHANGED <<a0, cut>>
Inside == \A r \in todo : r[1] >= 1 /\ r[2] <= Len(a)
AlwaysPermutation == SamePerm(a0, a)
SortedAtEnd == todo = {} => IsSorted(a)
Terminates == <>(todo = {})
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the searches as the loop of sort.h
RECURSIVE LB(_, _, _, _)
LB(q, k, at, n) == IF n = 0 THEN at ELSE LET st == n \div 2 IN IF q[at + st + 1][1] < k THEN LB(q, k, at + st + 1, n - st - 1) ELSE LB(q, k, at, st)
RECURSIVE UB(_, _, _, _)
UB(q, k, at, n) == IF n = 0 THEN at ELSE LET st == n \div 2 IN IF ~(k < q[at + st + 1][1]) THEN UB(q, k, at + st + 1, n - st - 1) ELSE UB(q, k, at, st)
Boundary(q, k, r, strict) == (\A j \in 1..r : IF strict THEN q[j][1] < k ELSE q[j][1] <= k) /\ (\A j \in r + 1..Len(q) : IF strict THEN q[j][1] >= k ELSE q[j][1] > k)
Searches == todo = {} => \A k \in {x - 1 : x \in Keys} \cup Keys \cup {x + 1 : x \in Keys} :
               Boundary(a, k, LB(a, k, 0, Len(a)), TRUE) /\ Boundary(a, k, UB(a, k, 0, Len(a)), FALSE)
=============================================================================
