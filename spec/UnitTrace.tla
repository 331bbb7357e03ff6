------------------------------- MODULE UnitTrace -------------------------------
EXTENDS Unit, TraceKit
VARIABLES s, i
tvars == <<s, i>>
Fix3(q) == [j \in 1..3 |-> Fixed(q[j])]
Step(e) == \* vector, its unit vector, as bits
           e[1] = "normal" /\ (\A j \in 1..3 : ~Special(Single, e[3][j])) /\ \E v \in {Fix3(e[2])}, r \in {Fix3(e[3])} : UnitOK(v, r, 11) /\ Parallel(v, r, 20)
TInit == s \in 1..Len(Sessions) /\ i = 1
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
