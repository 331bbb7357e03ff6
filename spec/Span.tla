--------------------------------- MODULE Span --------------------------------
(* A span is a window [off, off + len) of n items.  2147483647 stands for counts near SIZE_MAX. *)
EXTENDS Integers, Sequences, TLC
VARIABLES n, off, len
SpInit(k) == n = k /\ off = 0 /\ len = k
Min(a, b) == IF a < b THEN a ELSE b
\* an empty result may sit anywhere inside the data
Skip(c) == /\ len' = len - Min(c, len)
           /\ IF len' > 0 THEN off' = off + c ELSE off' \in off..off + len
           /\ UNCHANGED n
Trim(c) == /\ len' = len - Min(c, len)
           /\ IF len' > 0 THEN off' = off ELSE off' \in off..off + len
           /\ UNCHANGED n
Inside == off >= 0 /\ len >= 0 /\ off + len <= n
=============================================================================
