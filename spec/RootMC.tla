------------------------------- MODULE RootMC -------------------------------
(* Rooted (GeoTrace) pins down one value: for every small v exactly the integer nearest to its root satisfies it, nearest
   integers ascend with v, and the angle formula is the truncated fraction of a turn. *)
EXTENDS Integers
CONSTANTS Max
VARIABLES v, r
\* the integer test used for exact arguments: (2r - 1)^2 <= 4v <= (2r + 1)^2, equality being impossible by parity
Near(n, k) == k >= 0 /\ (2 * k - 1 <= 0 \/ (2 * k - 1) * (2 * k - 1) <= 4 * n) /\ 4 * n <= (2 * k + 1) * (2 * k + 1)
Init == v = 0 /\ r = 0
Next == v < Max /\ v' = v + 1 /\ r' \in {r, r + 1} /\ Near(v', r')
\* k nearest: |k - root| <= |m - root| for the neighbours m of k, decided on squares: root <= k + 1/2 iff v <= k^2 + k
Nearest == /\ v <= r * r + r /\ (r = 0 \/ v > r * r - r)
           /\ \A k \in (IF r > 2 THEN r - 2 ELSE 0)..r + 2 : Near(v, k) => k = r
Progress == v < Max => ENABLED Next
=============================================================================
