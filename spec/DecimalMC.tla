------------------------------ MODULE DecimalMC ------------------------------
(* The odometer the driver uses to sweep long ranges: counting up by digits with carries is counting up, also from a
higher digit on: 10^K at a time. *)
EXTENDS Text, FiniteSets
CONSTANTS N, K
VARIABLES n, odo
Start == 10^K - (IF K = 0 THEN 1 ELSE 0)
Init == \E low \in {Start, Start + (10^K) \div 3} : n = low /\ odo = Dec(ToString(low))
RECURSIVE Carry(_, _)
Carry(q, j) == IF j = 0 THEN <<49>> \o q
               ELSE IF q[j] = 57 THEN Carry([q EXCEPT ![j] = 48], j - 1)
               ELSE [q EXCEPT ![j] = @ + 1]
Next == n < N /\ n' = n + 10^K /\ odo' = Carry(odo, Len(odo) - K)
Same == odo = Dec(ToString(n))
Canonical == odo[1] # 48 \/ n = 0
=============================================================================
