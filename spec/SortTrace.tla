------------------------------ MODULE SortTrace ------------------------------
EXTENDS Sort, TraceKit
VARIABLES s, i
tvars == <<s, i, a>>
Step(e) == CASE e[1] = "load"  -> Load(e[2])
             [] e[1] = "sort"  -> e[4] /\ SortTo(e[3])      \* e[2] names algorithm and cutoff, e[4]: neighbours untouched
             [] e[1] = "sortk" -> LET q == e[3] IN          \* plain numbers: compare as bags
                                  /\ e[4] /\ Len(q) = Len(a) /\ TRUE = (\A j \in 1..Len(q) - 1 : q[j] <= q[j + 1])
                                  /\ TRUE = (\A v \in {q[j] : j \in 1..Len(q)} : Cardinality({j \in 1..Len(q) : q[j] = v}) = Cardinality({j \in 1..Len(a) : a[j][1] = v}))
                                  /\ a' = [j \in 1..Len(q) |-> <<q[j], j>>]
             [] e[1] = "lower" -> IsSorted(a) /\ Lower(e[2], e[3])
             [] e[1] = "upper" -> IsSorted(a) /\ Upper(e[2], e[3])
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ a = <<>>
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
