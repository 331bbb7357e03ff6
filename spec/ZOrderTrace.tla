----------------------------- MODULE ZOrderTrace -----------------------------
EXTENDS ZOrder, TraceKit
VARIABLES s, i
tvars == <<s, i, data>>
Step(e) == CASE e[1] = "encode" -> e[4] = Encode(e[2], e[3]) /\ UNCHANGED data
             \* coordinates of the corners and the point; result of z_inside on their codes
             [] e[1] = "inside" -> /\ e[8] = (BLe(e[2], e[6]) /\ BLe(e[6], e[4]) /\ BLe(e[3], e[7]) /\ BLe(e[7], e[5]))
                                   /\ UNCHANGED data
             [] e[1] = "load"   -> Load(e[2])
             [] e[1] = "query"  -> Query(e[2], e[3], e[4])
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ data = <<>>
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
