------------------------------ MODULE TextTrace ------------------------------
EXTENDS Text, TraceKit
VARIABLES s, i
tvars == <<s, i>>
Step(e) == CASE \* signed, bytes of the value, the text written (in a buffer of exactly the longest text of the type)
                e[1] = "int"   -> e[4] = Dec(IntOf(e[2], e[3]))
             \* every magnitude from first to last, both signs if signed: start and end of the odometer, mismatches
             [] e[1] = "sweep" -> e[4] = Dec(e[2]) /\ e[5] = Dec(e[3]) /\ e[6] = 0
             \* to_text of several values; as_string of several values
             [] e[1] = "text"  -> e[3] = Concat(e[2], 1)
             [] e[1] = "as"    -> e[3] = AsString(e[2])
TInit == s \in 1..Len(Sessions) /\ i = 1
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
