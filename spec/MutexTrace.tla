----------------------------- MODULE MutexTrace -----------------------------
(* every event ends with the threads whose blocked calls returned because of it, and with the threads still blocked *)
EXTENDS Mutex, TraceKit
VARIABLES s, i
Rng(q) == {q[j] : j \in DOMAIN q}
Blocked == UNION {wx'[l] \cup ws'[l] : l \in DOMAIN ex}
Step(e) ==
    CASE e[1] = "acq"  -> Acquire(e[2], e[3], e[4], Rng(e[5])) /\ Rng(e[6]) = Blocked
      [] e[1] = "try"  -> Try(e[2], e[3], e[4], Rng(e[5])) /\ Rng(e[6]) = Blocked
      [] e[1] = "acqs" -> AcquireShared(e[2], e[3], e[4], Rng(e[5])) /\ Rng(e[6]) = Blocked
      [] e[1] = "trys" -> TryShared(e[2], e[3], e[4], Rng(e[5])) /\ Rng(e[6]) = Blocked
      [] e[1] = "rel"  -> Release(e[2], e[3], Rng(e[5])) /\ Rng(e[6]) = Blocked
      [] e[1] = "rels" -> ReleaseShared(e[2], e[3], Rng(e[5])) /\ Rng(e[6]) = Blocked
      [] e[1] = "renew" -> Renew(e[2])
      \* free running threads: <<"stress", mutual exclusion kept, increments made, counter>>
      [] e[1] = "stress" -> e[2] = TRUE /\ e[3] = e[4] /\ UNCHANGED mvars
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ MInit(1..Par(s)[2])
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED <<s, i, ex, sh, wx, ws>>
=============================================================================
