----------------------------- MODULE DictionaryMC ----------------------------
(* the scan of dictionary.h (search tree over names[1..heap-1], then linear) side by side with the map *)
EXTENDS Dictionary, Json
CONSTANTS N, KeySet, Vals
VARIABLES op, names, size, heap
\* descending keys into an implicit tree: the in-order sequence of nodes 1..h-1 is descending
RECURSIVE InOrder(_, _)
InOrder(n, h) == IF n >= h THEN <<>> ELSE InOrder(2 * n, h) \o <<n>> \o InOrder(2 * n + 1, h)
Desc(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a < b => q[a] > q[b]
RECURSIVE TreeFind(_, _)
TreeFind(k, n) == IF n >= heap THEN 0 ELSE IF names[n] = k THEN n ELSE TreeFind(k, IF names[n] >= k THEN 2 * n + 1 ELSE 2 * n)
Lin(k) == {n \in (IF heap = 0 THEN 1 ELSE heap)..size - 1 : names[n] = k}
FindI(k) == IF TreeFind(k, 1) # 0 THEN TreeFind(k, 1) ELSE IF Lin(k) = {} THEN 0 ELSE CHOOSE n \in Lin(k) : \A m \in Lin(k) : n <= m
Pre == {S \in SUBSET KeySet : Cardinality(S) <= N - 1}
Init == /\ \E S \in Pre : LET h == IF S = {} THEN 0 ELSE Cardinality(S) + 1
                              d == Desc(S) io == InOrder(1, h)
                              at == [k \in S |-> LET j == CHOOSE j \in 1..Len(io) : d[j] = k IN io[j]] IN
              /\ heap = h /\ size = h
              /\ names = [n \in 1..N - 1 |-> IF n < h THEN (CHOOSE k \in S : at[k] = n) ELSE 0]
              /\ DInit(N, at, [k \in S |-> 0])
              /\ op = <<"init", Cardinality(S)>>
        
Next == \/ \E k \in KeySet, v \in Vals :
             /\ op' = <<"bind", k, v>>
             /\ LET f == FindI(k) m == IF size = 0 THEN 1 ELSE size IN
                IF f # 0 THEN Bind(k, v, f) /\ UNCHANGED <<names, size, heap>>
                ELSE IF m >= N THEN Bind(k, v, 0) /\ UNCHANGED <<names, size, heap>>
                ELSE Bind(k, v, m) /\ names' = [names EXCEPT ![m] = k] /\ size' = m + 1 /\ UNCHANGED heap
        \/ \E k \in KeySet : op' = <<"find", k>> /\ Find(k, FindI(k)) /\ UNCHANGED <<names, size, heap>>
Refines == \A k \in KeySet : FindI(k) = (IF k \in Keys THEN slot[k] ELSE 0)
View == <<slot, val, heap>>
Emit == heap # 0 \/ PrintT("@T " \o ToJson([f |-> ToString(View), o |-> op', t |-> ToString(View'), i |-> op = <<"init", 0>>]))
=============================================================================
