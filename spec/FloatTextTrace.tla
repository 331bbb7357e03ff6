---------------------------- MODULE FloatTextTrace ----------------------------
EXTENDS FloatText, TraceKit
VARIABLES s, i
tvars == <<s, i>>
Fmt(k) == IF k = 32 THEN <<24, 8>> ELSE <<53, 11>>
Step(e) == CASE \* size, bits, to_text (in a buffer of 32 bytes), as_string
                e[1] = "float" -> IsText(Fmt(e[2]), e[3], e[4]) /\ Len(e[4]) <= 32 /\ e[5] = e[4]
             [] e[1] = "list"  -> IsList(Fmt(e[2]), e[3], e[4])
             \* first, ", ", second, ", " ... as arguments of to_text and of as_string
             [] e[1] = "row"   -> Row(Fmt(e[2]), e[3], e[4]) /\ e[5] = e[4]
TInit == s \in 1..Len(Sessions) /\ i = 1
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
