----------------------------- MODULE PoolTrace ------------------------------
EXTENDS Pool, TraceKit
VARIABLES s, i
tvars == <<s, i, cap, q, held>>
\* what the driver saw after the event: contents of every queue (drained from a copy), is_empty, head, tail,
\* number of nodes that can still be allocated, and every held node's contents
\* of a queue in a large pool the driver reports the length and where the values stop being consecutive
Large == Par(s)[1] = 9
Same(o, r) == IF Large THEN o[1] = Len(r) /\ {o[2][k] : k \in DOMAIN o[2]} = {k \in 2..Len(r) : r[k] # r[k - 1] + 1} ELSE o = r
Obs(o) == /\ \A k \in DOMAIN q' : Same(o.q[k], q'[k])
          /\ o.cap = cap' + 1
          /\ \A k \in DOMAIN q' : o.e[k] = (q'[k] = <<>>)
          /\ \A k \in DOMAIN q' : q'[k] # <<>> => o.h[k] = Head(q'[k]) /\ o.t[k] = q'[k][Len(q'[k])]
          /\ o.free = cap' - Used'
          /\ Len(o.held) = Cardinality(DOMAIN held')
          /\ \A j \in 1..Len(o.held) : o.held[j][1] \in DOMAIN held' /\ held'[o.held[j][1]] = o.held[j][2]
RECURSIVE Ramp(_, _)
Ramp(a, n) == IF n = 0 THEN <<>> ELSE Ramp(a, n - 1) \o <<a + n - 1>>
Step(e) ==
    CASE e[1] = "append" -> AppendTail(e[2], e[3], e[4]) /\ Obs(e[5])
      [] e[1] = "insert" -> InsertHead(e[2], e[3], e[4]) /\ Obs(e[5])
      [] e[1] = "remove" -> RemoveHead(e[2], e[3]) /\ Obs(e[4])
      [] e[1] = "alloc"  -> AllocNode(e[3], e[2]) /\ Obs(e[4])
      [] e[1] = "free"   -> FreeNode(e[2]) /\ Obs(e[3])
      [] e[1] = "reset"  -> Reset /\ Obs(e[2])
      \* append a, a+1, ... until refused
      [] e[1] = "fill"   -> e[4] = Free /\ q' = [q EXCEPT ![e[2]] = @ \o [j \in 1..e[4] |-> e[3] + j - 1]] /\ UNCHANGED <<cap, held>> /\ Obs(e[5])
      \* remove until refused
      [] e[1] = "drain"  -> (IF Large THEN e[3] = Len(q[e[2]]) ELSE e[3] = q[e[2]]) /\ q' = [q EXCEPT ![e[2]] = <<>>] /\ UNCHANGED <<cap, held>> /\ Obs(e[4])
TInit == /\ s \in 1..Len(Sessions) /\ i = 1
         /\ PoolInit(Par(s)[2], 1..Par(s)[3])
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
