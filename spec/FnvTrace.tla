------------------------------ MODULE FnvTrace ------------------------------
EXTENDS Fnv, TraceKit
VARIABLES s, i, h
tvars == <<s, i, h>>
\* h: running hash per width
Step(e) == CASE e[1] = "start" -> h' = [h EXCEPT ![e[2]] = e[3]]
             [] e[1] = "fresh" -> h' = [w \in {32, 64} |-> Basis(w)]
             \* width, how fed, little endian bytes, result
             [] e[1] = "feed"  -> LET r == Fnv(e[2], h[e[2]], e[4]) IN e[5] = r /\ h' = [h EXCEPT ![e[2]] = r]
             \* width, how fed, number of bytes, rule, result
             [] e[1] = "long"  -> e[7] = FnvLong(e[2], Basis(e[2]), Made(e[4], e[5], e[6])) /\ UNCHANGED h
             \* the default basis / text form
             [] e[1] = "hash"  -> e[5] = Fnv(e[2], Basis(e[2]), e[4]) /\ UNCHANGED h
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ h = [w \in {32, 64} |-> Basis(w)]
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
