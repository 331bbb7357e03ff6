--------------------------------- MODULE Tri ---------------------------------
(* Exact predicates on points <<x, y>> with integer coordinates.  The products leave TLC's 32 bits, so TLC evaluates
   these definitions through spec/java/Tri.java; TriTest compares the two where TLC's integers suffice and Geo (over
   unbounded integers) beyond. *)
EXTENDS Integers, Sequences
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
CrossP(a, b) == a[1] * b[2] - a[2] * b[1]
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
SqrP(a) == a[1] * a[1] + a[2] * a[2]
\* 1: counter clockwise (x right, y up), 0: collinear
Orient(a, b, c) == Sgn(CrossP(Minus(b, a), Minus(c, a)))
\* for a clockwise a b c: negative iff d is strictly inside their circle
InCircle(a, b, c, d) == LET u == Minus(a, d) v == Minus(b, d) w == Minus(c, d) IN
                        Sgn(SqrP(u) * CrossP(v, w) + SqrP(v) * CrossP(w, u) + SqrP(w) * CrossP(u, v))
SosP(a, b) == IF CrossP(a, b) # 0 THEN Sgn(CrossP(a, b)) ELSE IF b[2] # a[2] THEN Sgn(b[2] - a[2]) ELSE Sgn(a[1] - b[1])
\* p, in units of 2^-k, lies in the clockwise triangle a b c; ties broken by displacing p infinitesimally, so that of all
\* the triangles around a point exactly one contains it
InFace(k, a, b, c, p) == LET u == <<a[1] * 2^k - p[1], a[2] * 2^k - p[2]>> v == <<b[1] * 2^k - p[1], b[2] * 2^k - p[2]>> w == <<c[1] * 2^k - p[1], c[2] * 2^k - p[2]>> IN
                         SosP(u, v) < 0 /\ SosP(v, w) < 0 /\ SosP(w, u) < 0
\* p on the closed segment a b
Between(a, b, p) == LET u == Minus(a, p) v == Minus(b, p) IN Orient(a, b, p) = 0 /\ u[1] * v[1] + u[2] * v[2] <= 0
\* p no farther than r from the closed segment a b
Near(a, b, p, r) == LET d == Minus(b, a) u == Minus(p, a) al == d[1] * u[1] + d[2] * u[2] IN
                    IF al <= 0 THEN SqrP(u) <= r * r ELSE IF al >= SqrP(d) THEN SqrP(Minus(p, b)) <= r * r
                    ELSE CrossP(d, u) * CrossP(d, u) <= r * r * SqrP(d)
=============================================================================
