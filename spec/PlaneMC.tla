------------------------------ MODULE PlaneMC -------------------------------
(* The other operators of Geo against independent definitions, exhaustively on a small grid: one state per tuple. *)
EXTENDS Geo
CONSTANTS N, V
VARIABLES kind, a, b, q
\* kind 1: vectors a, b; kind 2: direction a, point b, rr in q; kind 3: polygon q with up to V vertices around the point a
P == (-N..N) \X (-N..N)
S(p) == <<ToString(p[1]), ToString(p[2])>>
cr(u, v) == u[1] * v[2] - u[2] * v[1]
dt(u, v) == u[1] * v[1] + u[2] * v[2]
sub(u, v) == <<u[1] - v[1], u[2] - v[2]>>
Seqs == UNION {[1..k -> (0..2) \X (0..2)] : k \in 1..V}
Init == \/ kind = 1 /\ a \in P /\ b \in P /\ q = 0
        \/ kind = 2 /\ a \in P /\ b \in P /\ q \in 0..(2 * N * N + 1)
        \/ kind = 3 /\ a \in (0..2) \X (0..2) /\ b = 0 /\ q \in Seqs
Next == UNCHANGED <<kind, a, b, q>>
\* exactly one of inside(a, b), inside(b, a) for different vectors, neither for equal ones, the cross product's sign when not zero
Antisym == kind = 1 => /\ (a = b => ~Inside(S(a), S(b)))
                       /\ (a # b => Inside(S(a), S(b)) # Inside(S(b), S(a)))
                       /\ (cr(a, b) # 0 => Inside(S(a), S(b)) = (cr(a, b) < 0))
\* distances: some point of the figure, taken on a fine rational grid (multiples of 1/|d|^2, which holds the nearest one), is nearer than rr
D == dt(a, a)
Near(k) == \* the point (k / D) d scaled by D:  |D p - k d|^2 < rr D^2
           LET u == <<D * b[1] - k * a[1], D * b[2] - k * a[2]>> IN dt(u, u) < q * D * D
RR == ToString(q)
Distances == kind = 2 => IF D = 0 THEN /\ NearLine(S(b), RR, S(a)) = (dt(b, b) < q) /\ NearRay(S(b), RR, S(a)) = (dt(b, b) < q)
                                       /\ NearSegment(S(b), RR, S(a)) = (dt(b, b) < q) /\ NearEdge(S(b), RR, S(a)) = (dt(b, b) < q)
             ELSE LET f == dt(a, b) lim == 2 * N * N + D IN
                  /\ NearSegment(S(b), RR, S(a)) = (\E k \in 0..D : Near(k))
                  /\ NearRay(S(b), RR, S(a)) = (\E k \in 0..lim : Near(k))
                  /\ NearLine(S(b), RR, S(a)) = (\E k \in -lim..lim : Near(k))
                  /\ NearEdge(S(b), RR, S(a)) = (f \in 0..D /\ Near(f))
\* winding number: quarter turns of the vertex directions as seen from the point
Quad(v) == IF v[1] > 0 /\ v[2] >= 0 THEN 0 ELSE IF v[1] <= 0 /\ v[2] > 0 THEN 1 ELSE IF v[1] < 0 /\ v[2] <= 0 THEN 2 ELSE 3
Turn(u, v) == LET m == (Quad(v) - Quad(u) + 4) % 4 IN IF m = 0 THEN 0 ELSE IF m = 1 THEN 1 ELSE IF m = 3 THEN -1 ELSE IF cr(u, v) > 0 THEN 2 ELSE -2
RECURSIVE Turns(_)
Turns(j) == IF j = 0 THEN 0 ELSE Turns(j - 1) + Turn(sub(q[j], a), sub(q[NextIx(q, j)], a))
On == \E j \in 1..Len(q) : LET u == sub(q[j], a) v == sub(q[NextIx(q, j)], a) IN cr(u, v) = 0 /\ dt(u, v) <= 0
WindingOK == kind = 3 => LET ps == [j \in 1..Len(q) |-> S(q[j])] IN
             /\ OnBoundary(ps, S(a)) = On
             /\ (~On => 4 * Winding(ps, S(a)) = Turns(Len(q)))
=============================================================================
