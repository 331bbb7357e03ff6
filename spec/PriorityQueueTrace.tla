------------------------- MODULE PriorityQueueTrace -------------------------
EXTENDS PriorityQueue, TraceKit
VARIABLES s, i
tvars == <<s, i, cap, items>>
Sorted(q) == TRUE = (\A j \in 1..Len(q) - 1 : q[j][1] <= q[j + 1][1])
Obs(o) == /\ o.empty = (items' = {})
          /\ items' # {} => LeastIn(o.head, items')
          /\ Len(o.drained) = Cardinality(items') /\ {o.drained[j] : j \in 1..Len(o.drained)} = items' /\ Sorted(o.drained)
Step(e) == CASE e[1] = "enqueue" -> Enqueue(e[2], e[3]) /\ Obs(e[4])
             [] e[1] = "many"    -> EnqueueAll(e[2], e[3]) /\ Obs(e[4])
             [] e[1] = "dequeue" -> Dequeue(e[2]) /\ Obs(e[3])
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ PInit(Par(s)[2])
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
