-------------------------------- MODULE Pool --------------------------------
(* A fixed pool of nodes shared by any number of queues and by direct node holders (pool.h).
   q[k] is queue k, head first; held maps each directly allocated node to what its holder wrote in it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cap, q, held
pvars == <<cap, q, held>>

RECURSIVE SumLen(_, _)
SumLen(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN Len(f[k]) + SumLen(f, S \ {k})

Used == Cardinality(DOMAIN held) + SumLen(q, DOMAIN q)
Free == cap - Used

PoolInit(c, Queues) == cap = c /\ q = [k \in Queues |-> <<>>] /\ held = <<>>

AppendTail(k, v, ok) ==
    /\ ok = (Free > 0)
    /\ q' = IF ok THEN [q EXCEPT ![k] = Append(@, v)] ELSE q
    /\ UNCHANGED <<cap, held>>

InsertHead(k, v, ok) ==
    /\ ok = (Free > 0)
    /\ q' = IF ok THEN [q EXCEPT ![k] = <<v>> \o @] ELSE q
    /\ UNCHANGED <<cap, held>>

RemoveHead(k, ok) ==
    /\ ok = (q[k] # <<>>)
    /\ q' = IF ok THEN [q EXCEPT ![k] = Tail(@)] ELSE q
    /\ UNCHANGED <<cap, held>>

\* a node is handed out whenever one is free, and never one that somebody else holds; 0 means refused
AllocNode(n, v) ==
    /\ IF Free > 0 THEN n \in (1..cap) \ DOMAIN held ELSE n = 0
    /\ held' = IF n = 0 THEN held ELSE held @@ (n :> v)
    /\ UNCHANGED <<cap, q>>

FreeNode(n) ==
    /\ n \in DOMAIN held \/ n = 0
    /\ held' = [m \in DOMAIN held \ {n} |-> held[m]]
    /\ UNCHANGED <<cap, q>>

Reset ==
    /\ q' = [k \in DOMAIN q |-> <<>>]
    /\ held' = <<>>
    /\ UNCHANGED cap

Conservation == Used <= cap /\ Used >= 0
=============================================================================
