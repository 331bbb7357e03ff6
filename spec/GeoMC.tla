------------------------------- MODULE GeoMC --------------------------------
(* The geometric specification checked against independent definitions on a small grid.
   V01: states are triangulations of a square of side N reached by splitting triangles at grid points inside them, splitting
   interior or boundary edges at grid points on them, and flipping diagonals of strictly convex quadrilaterals; in every one, each grid point strictly
   inside the square is in exactly one triangle.  *)
EXTENDS Geo
CONSTANTS N, MaxTris
VARIABLES mesh
Sp(p) == <<ToString(p[1]), ToString(p[2])>>
cr(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
\* triangles are sets of three points; the order with negative cross product makes the three-sided test positive
Ordered(t) == LET a == CHOOSE x \in t : TRUE b == CHOOSE x \in t \ {a} : TRUE c == CHOOSE x \in t \ {a, b} : TRUE
              IN IF cr(a, b, c) < 0 THEN <<a, b, c>> ELSE <<a, c, b>>
Grid == (0..N) \X (0..N)
StrictIn(p, t) == LET o == Ordered(t) IN cr(o[1], o[2], p) < 0 /\ cr(o[2], o[3], p) < 0 /\ cr(o[3], o[1], p) < 0
OnSeg(p, a, b) == p # a /\ p # b /\ cr(a, b, p) = 0 /\ (p[1] - a[1]) * (p[1] - b[1]) + (p[2] - a[2]) * (p[2] - b[2]) <= 0
Degenerate(t) == LET a == CHOOSE x \in t : TRUE b == CHOOSE x \in t \ {a} : TRUE c == CHOOSE x \in t \ {a, b} : TRUE IN cr(a, b, c) = 0
Init == mesh = {{<<0, 0>>, <<N, 0>>, <<N, N>>}, {<<0, 0>>, <<0, N>>, <<N, N>>}}
SplitFace == \E t \in mesh, p \in Grid : StrictIn(p, t) /\ mesh' = (mesh \ {t}) \cup {(t \ {v}) \cup {p} : v \in t}
Edges == {e \in UNION {SUBSET t : t \in mesh} : Cardinality(e) = 2}
SplitEdge == \E e \in Edges, p \in Grid :
    LET a == CHOOSE x \in e : TRUE b == CHOOSE x \in e \ {a} : TRUE
        ts == {t \in mesh : e \subseteq t}
    IN OnSeg(p, a, b) /\ mesh' = (mesh \ ts) \cup UNION {{(t \ {v}) \cup {p} : v \in e} : t \in ts}
Flip == \E e \in Edges :
    LET ts == {t \in mesh : e \subseteq t}
        a == CHOOSE x \in e : TRUE b == CHOOSE x \in e \ {a} : TRUE
        q == UNION ts \ e
    IN /\ Cardinality(ts) = 2
       /\ LET c == CHOOSE x \in q : TRUE d == CHOOSE x \in q \ {c} : TRUE
          IN /\ cr(c, d, a) * cr(c, d, b) < 0
             /\ mesh' = (mesh \ ts) \cup {q \cup {a}, q \cup {b}}
Next == (Cardinality(mesh) < MaxTris /\ (SplitFace \/ SplitEdge)) \/ Flip
Tri(t) == LET o == Ordered(t) IN <<Sp(o[1]), Sp(o[2]), Sp(o[3])>>
OneTriangle == LET ts == {Tri(t) : t \in mesh} In(p) == Cardinality({t \in ts : InTriangle(Sp(p), t)}) IN
    /\ \A p \in (1..N - 1) \X (1..N - 1) : In(p) = 1
    /\ \A p \in Grid : In(p) <= 1
Planar == \A t \in mesh : ~Degenerate(t)
=============================================================================
