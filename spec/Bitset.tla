------------------------------- MODULE Bitset -------------------------------
EXTENDS Integers, FiniteSets, Sequences, TLC
VARIABLES n, bits
SInit(k) == n = k /\ bits = {}
Write(j, v) == j \in 0..n - 1 /\ bits' = (IF v THEN bits \cup {j} ELSE bits \ {j}) /\ UNCHANGED n
WriteAll(v) == bits' = (IF v THEN 0..n - 1 ELSE {}) /\ UNCHANGED n
Refused == UNCHANGED <<n, bits>>
TypeOK == bits \subseteq 0..n - 1
=============================================================================
