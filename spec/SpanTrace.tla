------------------------------ MODULE SpanTrace ------------------------------
EXTENDS Span, TraceKit
VARIABLES s, i
tvars == <<s, i, n, off, len>>
Step(e) == /\ off' = e[3] /\ len' = e[4]
           /\ CASE e[1] = "skip" -> Skip(e[2]) [] e[1] = "trim" -> Trim(e[2])
           \* from begin to end, also of a const span: every item once, in order
           /\ e[7] = <<off', len', off', len'>>
           /\ LET seen == IF len' < 60 THEN [j \in 1..len' |-> off' + j - 1] ELSE <<>> IN e[5] = seen /\ e[6] = seen
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ SpInit(Par(s)[2])
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
