-------------------------- MODULE PriorityQueueMC ---------------------------
(* The array heap of heap_raise/heap_lower run side by side with the bag specification. *)
EXTENDS PriorityQueue, Json
CONSTANTS Cap, Keys
VARIABLES heap, op, tag
At(h, n) == h[n + 1]
RECURSIVE Raise(_, _, _)
Raise(h, item, n) == IF n = 0 THEN [h EXCEPT ![1] = item]
                     ELSE LET p == (n - 1) \div 2 IN
                          IF item[1] < At(h, p)[1] THEN Raise([h EXCEPT ![n + 1] = At(h, p)], item, p)
                          ELSE [h EXCEPT ![n + 1] = item]
RECURSIVE Lower(_, _, _)
Lower(h, item, n) == LET p0 == 2 * n + 1 IN
    IF p0 >= Len(h) THEN [h EXCEPT ![n + 1] = item]
    ELSE LET p == IF p0 + 1 < Len(h) /\ At(h, p0 + 1)[1] < At(h, p0)[1] THEN p0 + 1 ELSE p0 IN
         IF item[1] < At(h, p)[1] THEN [h EXCEPT ![n + 1] = item]
         ELSE Lower([h EXCEPT ![n + 1] = At(h, p)], item, p)
FreeTag == CHOOSE t \in 1..Cap + 1 : \A x \in items : x[2] # t
Init == PInit(Cap) /\ heap = <<>> /\ op = <<"init">> /\ tag = 0
Next == \/ \E k \in Keys, ok \in BOOLEAN :
             /\ Enqueue(<<k, FreeTag>>, ok) /\ op' = <<"enqueue", k>>
             /\ heap' = IF ok THEN Raise(Append(heap, <<0, 0>>), <<k, FreeTag>>, Len(heap)) ELSE heap
             /\ UNCHANGED tag
        \/ /\ items # {} /\ op' = <<"dequeue">>
           /\ Dequeue(heap[1])           \* refinement: the heap's head is always a least item
           /\ heap' = IF Len(heap) = 1 THEN <<>> ELSE LET h == SubSeq(heap, 1, Len(heap) - 1) IN Lower(h, heap[Len(heap)], 0)
           /\ UNCHANGED tag
HeapIsBag == {heap[j] : j \in 1..Len(heap)} = items /\ Len(heap) = Cardinality(items)
HeadLeast == heap # <<>> => Least(heap[1])
View == [j \in 1..Len(heap) |-> heap[j][1]]
Emit == PrintT("@T " \o ToJson([f |-> ToString(View), o |-> op', t |-> ToString(View'), i |-> op = <<"init">>]))
=============================================================================
