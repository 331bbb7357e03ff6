---------------------------- MODULE CordicTrace ----------------------------
EXTENDS Cordic, TraceKit
VARIABLES s, i
tvars == <<s, i>>
Quarters(l) == \A k \in 1..8 : l[k + 1] = <<BNeg(l[k][2]), l[k][1]>>
Sub(a, b) == <<BSub(a[1], b[1]), BSub(a[2], b[2])>>
Crs(a, b) == BSub(BMul(a[1], b[2]), BMul(a[2], b[1]))
\* b * n / d, truncated towards zero
Part(b, n, d) == IF BSgn(d) < 0 THEN BQuo(BMul(b, BNeg(n)), BNeg(d)) ELSE BQuo(BMul(b, n), d)
Step(e) ==
    CASE \* vector, angle, what it became
         e[1] = "rot" -> RotateOK(e[2], e[3], 31, e[4], 2)
      [] e[1] = "cart" -> RotateOK(<<e[2], "0">>, e[3], 31, e[4], 2) /\ e[5] = e[4][1] /\ e[6] = e[4][2]
      [] e[1] = "quarter" -> Quarters(e[2])
      \* vector, <<length, angle>>, and the two of them again
      [] e[1] = "polar" -> /\ MagOK(e[2], e[3][1], 1) /\ (e[2] # <<"0", "0">> => AngleOK(e[2], e[3][2], 31, 2))
                           /\ e[4] = e[3][1] /\ e[5] = e[3][2] /\ e[6] = e[3][2]
      \* vector, angle to start from, <<length, angle>>
      [] e[1] = "vector" -> MagOK(e[2], e[4][1], 1) /\ (e[2] # <<"0", "0">> => AngleOK(e[2], BSub(e[4][2], e[3]), 31, 2))
      \* the line through the first two points and that through the other two; found, where
      [] e[1] = "cross" -> \E p \in {Sub(e[3], e[2])} : \E q \in {Sub(e[5], e[4])} : \E d \in {Crs(p, q)} :
                             IF d = "0" THEN ~e[6]
                             ELSE \E n \in {Crs(Sub(e[4], e[2]), q)} :
                                  e[6] /\ e[7] = <<BAdd(e[2][1], Part(p[1], n, d)), BAdd(e[2][2], Part(p[2], n, d))>>
      [] e[1] = "muldiv" -> e[5] = IF e[4] = "0" THEN e[2] ELSE <<Part(e[2][1], e[3], e[4]), Part(e[2][2], e[3], e[4])>>
TInit == s \in 1..Len(Sessions) /\ i = 1
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
