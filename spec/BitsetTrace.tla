----------------------------- MODULE BitsetTrace -----------------------------
EXTENDS Bitset, TraceKit
VARIABLES s, i
tvars == <<s, i, n, bits>>
Obs(o) == o.size = n /\ o.guard /\ Len(o.on) = Cardinality(bits') /\ {o.on[j] : j \in 1..Len(o.on)} = bits'
Step(e) == CASE e[1] \in {"bit", "setv"} -> Write(e[2], e[3]) /\ Obs(e[4])
             [] e[1] = "all" -> WriteAll(e[2]) /\ Obs(e[3])
             \* an index that is none (a text: it may be any size_t): every access fails its check before it touches anything
             [] e[1] = "outside" -> Refused /\ e[3] = <<1, 1, 1, 1, 1>> /\ Obs(e[4])
\* the first event of every session is a whole-set write (bitsets start uninitialised)
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ SInit(Par(s)[2])
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
