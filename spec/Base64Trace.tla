---------------------------- MODULE Base64Trace ----------------------------
EXTENDS Base64, Big, TraceKit
VARIABLES s, i
tvars == <<s, i>>
\* <<op, original bytes, text, computed size, decoded bytes>>; "pad": text padded; "static": compile time
Step(e) == IF e[1] = "size" THEN e[3] = BDiv(BMul(e[2], "3"), "4") \* size of a text of that many characters
           ELSE
           /\ e[1] \in {"raw", "pad", "static"}
           /\ e[3] = (IF e[1] = "raw" THEN Text(e[2]) ELSE Padded(e[2]))
           /\ e[4] = Len(e[2]) /\ e[5] = e[2]
TInit == s \in 1..Len(Sessions) /\ i = 1
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
