------------------------------- MODULE PoolMC -------------------------------
(* Exhaustive: every history of two queues and one direct holder over a small pool.  The concrete algorithm
   (circular lists over next[], free list in next[0]) is run side by side and must refine Pool. *)
EXTENDS Pool, Json
CONSTANTS Cap, NQ, Items, MaxHeld
VARIABLES op, next, size, tail
\* ---- the algorithm of pool.h -------------------------------------------------
N == Cap + 1
ivars == <<next, size, tail>>
AllocI == IF next[0] # 0 THEN [node |-> next[0], next |-> [next EXCEPT ![0] = next[next[0]]], size |-> size]
          ELSE IF size < N - 1 THEN [node |-> size + 1, next |-> next, size |-> size + 1]
          ELSE [node |-> 0, next |-> next, size |-> size]
VARIABLE data
RemoveI(k) == IF tail[k] = 0 THEN UNCHANGED <<next, size, tail, data>>
              ELSE LET t == tail[k] h == next[t] n1 == [next EXCEPT ![t] = next[h]] n2 == [n1 EXCEPT ![h] = n1[0]] IN
                   /\ next' = [n2 EXCEPT ![0] = h]
                   /\ tail' = IF h = t THEN [tail EXCEPT ![k] = 0] ELSE tail
                   /\ UNCHANGED <<size, data>>
AddI(k, v, atTail) ==
    LET a == AllocI n == a.node t == tail[k] IN
    IF n = 0 THEN UNCHANGED <<next, size, tail, data>>
    ELSE /\ size' = a.size
         /\ data' = [data EXCEPT ![n] = v]
         /\ IF t = 0 THEN next' = [a.next EXCEPT ![n] = n] ELSE next' = [a.next EXCEPT ![n] = a.next[t], ![t] = n]
         /\ tail' = IF atTail \/ t = 0 THEN [tail EXCEPT ![k] = n] ELSE tail
\* abstraction: walk the circular list from the head to the tail
RECURSIVE Walk(_, _)
Walk(n, t) == IF n = t THEN <<data[n]>> ELSE <<data[n]>> \o Walk(next[n], t)
Abs(k) == IF tail[k] = 0 THEN <<>> ELSE Walk(next[tail[k]], tail[k])
Refines == /\ \A k \in 1..NQ : Abs(k) = q[k]
           /\ \A n \in DOMAIN held : data[n] = held[n]
RECURSIVE FreeLen(_)
FreeLen(n) == IF n = 0 THEN 0 ELSE 1 + FreeLen(next[n])
NoLeak == FreeLen(next[0]) + (N - 1 - size) = Free
\* ---- side by side ------------------------------------------------------------
Init == /\ PoolInit(Cap, 1..NQ) /\ op = <<"init">>
        /\ next = [n \in 0..Cap |-> 0] /\ size = 0 /\ tail = [k \in 1..NQ |-> 0] /\ data = [n \in 0..Cap |-> 0]
Next == \/ \E k \in 1..NQ, v \in Items : op' = <<"append", k, v>> /\ (\E ok \in BOOLEAN : AppendTail(k, v, ok)) /\ AddI(k, v, TRUE)
        \/ \E k \in 1..NQ, v \in Items : op' = <<"insert", k, v>> /\ (\E ok \in BOOLEAN : InsertHead(k, v, ok)) /\ AddI(k, v, FALSE)
        \/ \E k \in 1..NQ : op' = <<"remove", k>> /\ (\E ok \in BOOLEAN : RemoveHead(k, ok)) /\ RemoveI(k)
        \/ \E v \in Items : /\ Cardinality(DOMAIN held) < MaxHeld
                            /\ op' = <<"alloc", v, AllocI.node>> /\ AllocNode(AllocI.node, v)
                            /\ next' = AllocI.next /\ size' = AllocI.size /\ data' = IF AllocI.node = 0 THEN data ELSE [data EXCEPT ![AllocI.node] = v]
                            /\ UNCHANGED tail
        \/ \E n \in DOMAIN held : /\ op' = <<"free", n>> /\ FreeNode(n)
                                  /\ next' = [next EXCEPT ![n] = next[0], ![0] = n] /\ UNCHANGED <<size, tail, data>>
        \/ op' = <<"reset">> /\ Reset /\ next' = [next EXCEPT ![0] = 0] /\ size' = 0 /\ tail' = [k \in 1..NQ |-> 0] /\ UNCHANGED data
\* the abstract state plus enough of the concrete one (which nodes are where) to visit every free list order
View == <<q, held, tail, size, next>>
Emit == PrintT("@T " \o ToJson([f |-> ToString(View), o |-> op', t |-> ToString(View'), i |-> op = <<"init">>]))
=============================================================================
