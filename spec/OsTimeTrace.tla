---------------------------- MODULE OsTimeTrace ----------------------------
EXTENDS OsTime, TraceKit
VARIABLES s, i, prev
tvars == <<s, i, prev>>
Range(q) == {q[j] : j \in 1..Len(q)}
Step(e) == CASE e[1] = "stamp" -> /\ Stamp(e[2], e[3], e[4], e[5], e[6])
                                  /\ Len(e[7]) > 0 /\ Range(e[7]) \subseteq MonotonicClocks
                                  /\ UNCHANGED prev
             [] e[1] = "sleep" -> Sleep(e[2], e[3]) /\ UNCHANGED prev
             \* the real OS clock: never backwards
             [] e[1] = "real"  -> BLe(prev, e[2]) /\ prev' = e[2]
             \* slept (real): at least the time asked for, in timestamps
             [] e[1] = "nap"   -> BLe(BMul(e[2], e[5]), BMul(BSub(e[4], e[3]), G)) /\ BLe(prev, e[3]) /\ prev' = e[4]
             [] e[1] = "wstamp" -> WinStamp(e[2], e[3], e[4], e[5]) /\ UNCHANGED prev
             [] e[1] = "wsleep" -> WinSleep(e[2], e[3]) /\ UNCHANGED prev
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ prev = "0"
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
