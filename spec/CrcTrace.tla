------------------------------ MODULE CrcTrace ------------------------------
(* c is the running value: feed continues from it, start forgets it. *)
EXTENDS Crc, TraceKit
VARIABLES s, i, c
tvars == <<s, i, c>>
Step(e) == CASE e[1] = "start" -> c' = e[2]
             \* polynomial, how it was fed (8, 32, 64 bit words, text, static), bytes in memory order, result
             [] e[1] = "feed"  -> LET r == Crc(e[2], c, e[4]) IN e[5] = r /\ c' = r
             \* polynomial, how, number of bytes, rule, result
             [] e[1] = "long"  -> \E r \in {CrcLong(e[2], c, Made(e[4], e[5], e[6]))} : e[7] = r /\ c' = r
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ c = "0"
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
