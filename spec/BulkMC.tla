------------------------------- MODULE BulkMC -------------------------------
EXTENDS Bulk, Json
CONSTANTS Cap, Items
VARIABLE op
Huge == 2147483647
Init == BInit(Cap, 1..2) /\ op = <<"init">>
Fresh(n) == [j \in 1..n |-> 0]
Pos(n) == IF n > 0 THEN n ELSE 0
Next == \E k \in 1..2, ok \in BOOLEAN :
        \/ \E v \in Items : op' = <<"append", k, v>> /\ BAppend(k, v, ok)
        \/ \E n \in (0..Cap + 1) \cup {Huge} : op' = <<"appendn", k, n>> /\ BAppendN(k, n, ok, IF ok THEN Fresh(n) ELSE <<>>)
        \/ \E n \in (0..Cap + 1) \cup {Huge} : op' = <<"resize", k, n>> /\ BResize(k, n, ok, IF ok THEN Fresh(Pos(n - Len(L[k]))) ELSE <<>>)
        \/ \E j \in (0..Cap) \cup {Huge} : op' = <<"remove", k, j>> /\ BRemove(k, j, ok)
        \/ \E j \in (0..Cap) \cup {Huge} : op' = <<"removeo", k, j>> /\ BRemoveOrdered(k, j, ok)
        \/ ok /\ op' = <<"clear", k>> /\ BClear(k)
        \/ ok /\ \E j \in 0..Cap - 1, v \in Items : op' = <<"set", k, j, v>> /\ BSet(k, j, v)
        \/ ok /\ \E m \in 1..2 : op' = <<"assign", k, m>> /\ BCopy(k, m)
        \/ ok /\ \E m \in 1..2 : m # k /\ op' = <<"copy", k, m>> /\ BCopy(k, m)
View == L
Emit == PrintT("@T " \o ToJson([f |-> ToString(L), o |-> op', t |-> ToString(L'), i |-> op = <<"init">>]))
\* removing position j keeps every other item (as a bag), whatever the flavour
BagOf(q) == [v \in 0..2 |-> Cardinality({j \in 1..Len(q) : q[j] = v})]
RemovalKeepsRest == [][ op'[1] \in {"remove", "removeo"} => LET k == op'[2] j == op'[3] IN
                          IF j < Len(L[k]) THEN BagOf(L[k]) = [BagOf(L'[k]) EXCEPT ![L[k][j + 1]] = @ + 1] /\ Len(L'[k]) = Len(L[k]) - 1
                          ELSE L' = L ]_<<L, op>>
=============================================================================
