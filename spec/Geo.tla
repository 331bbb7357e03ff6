--------------------------------- MODULE Geo ---------------------------------
(* Exact plane geometry over unbounded integers (decimal strings, module Big).  A point or vector is <<x, y>>. *)
EXTENDS Big, FiniteSets
Zero == "0"
VSub(a, b) == <<BSub(a[1], b[1]), BSub(a[2], b[2])>>
Cross(a, b) == BSub(BMul(a[1], b[2]), BMul(a[2], b[1]))
Dot(a, b) == BAdd(BMul(a[1], b[1]), BMul(a[2], b[2]))
Sqr(a) == Dot(a, a)

\* simulation of simplicity: both vectors are displaced by the same (e1, e2) with e1 infinitely larger than e2 > 0.  The
\* displaced cross product is the polynomial  a X b + e1 (by - ay) + e2 (ax - bx); its sign is that of the first non zero
\* coefficient.  inside(a, b): it is negative.
Sos(a, b) == LET k == <<Cross(a, b), BSub(b[2], a[2]), BSub(a[1], b[1])>>
                 nz == {j \in 1..3 : k[j] # Zero}
             IN IF nz = {} THEN 0 ELSE BSgn(k[CHOOSE j \in nz : \A m \in nz : j <= m])
Inside(a, b) == Sos(a, b) < 0
InTriangle(p, t) == LET a == VSub(t[1], p) b == VSub(t[2], p) c == VSub(t[3], p) IN Inside(a, b) /\ Inside(b, c) /\ Inside(c, a)

\* squared distance below rr; p relative to the start of a line, edge, ray or segment with direction d
NearPoint(p, rr) == BLt(Sqr(p), rr)
NearLine(p, rr, d) == IF Sqr(d) = Zero THEN NearPoint(p, rr)
                      ELSE LET c == Cross(d, p) IN BLt(BMul(c, c), BMul(rr, Sqr(d)))   \* (c / |d|)^2 < rr
Along(p, d) == BLe(Zero, Dot(p, d))
Within(p, d) == BLe(Dot(p, d), Sqr(d))
NearEdge(p, rr, d) == Along(p, d) /\ Within(p, d) /\ NearLine(p, rr, d)
NearRay(p, rr, d) == IF Along(p, d) THEN NearLine(p, rr, d) ELSE NearPoint(p, rr)
NearSegment(p, rr, d) == IF ~Along(p, d) THEN NearPoint(p, rr)
                         ELSE IF ~Within(p, d) THEN NearPoint(VSub(p, d), rr)
                         ELSE NearLine(p, rr, d)

\* winding number of a closed polygon (a sequence of points) around p not on its boundary: crossings of the ray from p
\* towards positive x, counted upwards minus downwards
NextIx(ps, j) == IF j = Len(ps) THEN 1 ELSE j + 1
Above(a, p) == BLt(p[2], a[2])
EdgeCross(a, b, p) == IF Above(a, p) = Above(b, p) THEN 0
                      ELSE LET s == BSgn(Cross(VSub(b, a), VSub(p, a)))
                           IN IF Above(b, p) THEN (IF s > 0 THEN 1 ELSE 0) ELSE (IF s < 0 THEN -1 ELSE 0)
RECURSIVE WSum(_, _, _)
WSum(ps, p, j) == IF j = 0 THEN 0 ELSE WSum(ps, p, j - 1) + EdgeCross(ps[j], ps[NextIx(ps, j)], p)
Winding(ps, p) == WSum(ps, p, Len(ps))
OnEdge(a, b, p) == /\ Cross(VSub(b, a), VSub(p, a)) = Zero
                   /\ BLe(Dot(VSub(a, p), VSub(b, p)), Zero)
OnBoundary(ps, p) == \E j \in 1..Len(ps) : OnEdge(ps[j], ps[NextIx(ps, j)], p)
=============================================================================
