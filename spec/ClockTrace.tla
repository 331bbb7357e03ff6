----------------------------- MODULE ClockTrace -----------------------------
EXTENDS Clock, TraceKit
VARIABLES s, i
tvars == <<s, i, freq, base, last, total, tick>>
\* e[5], e[6]: the clock's rate
Step(e) == CASE e[1] = "reset"   -> Reset(e[2], e[3]) /\ e[4] = "0"
             [] e[1] = "elapsed" -> Poll(e[5], e[6], e[2], e[3]) /\ e[4] = tick'
             [] e[1] = "current" -> Poll(e[5], e[6], e[2], BSub(e[3], tick)) /\ e[3] = tick' /\ e[4] = tick'
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ CInit
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
