------------------------------ MODULE GeoTrace ------------------------------
EXTENDS Geo, TraceKit
VARIABLES s, i
tvars == <<s, i>>
\* a polygon or mesh is a sequence of points; triangles name vertices by index
Tri(vs, t) == <<vs[t[1]], vs[t[2]], vs[t[3]]>>
In64(n) == BLe(BNeg(BPow2(63)), n) /\ BLt(n, BPow2(63))
Map2(f(_, _), u, v) == [k \in 1..Len(u) |-> f(u[k], v[k])]
Vec(op, u, v) == CASE op = "+" -> Map2(BAdd, u, v) [] op = "-" -> Map2(BSub, u, v)
                   [] op = "*" -> [k \in 1..Len(u) |-> BMul(u[k], v)]
                   [] op = "/" -> [k \in 1..Len(u) |-> BQuo(u[k], v)]
                   [] op = "==" -> u = v [] op = "!=" -> u # v
                   [] op = "==s" -> (\A k \in 1..Len(u) : u[k] = v) [] op = "!=s" -> ~(\A k \in 1..Len(u) : u[k] = v)
                   [] op = "dot" -> IF Len(u) = 1 THEN BMul(u[1], v[1]) ELSE IF Len(u) = 2 THEN Dot(u, v) ELSE BAdd(Dot(u, v), BMul(u[3], v[3]))
                   [] op = "sqr" -> IF Len(u) = 1 THEN BMul(u[1], u[1]) ELSE Dot(u, u)
                   [] op = "cross" -> IF Len(u) = 2 THEN Cross(u, v)
                                      ELSE LET c(j, k) == BSub(BMul(u[j], v[k]), BMul(u[k], v[j])) IN <<c(2, 3), c(3, 1), c(1, 2)>>
\* |r - sqrt(v)| <= 1/2, or a little more once a double cannot tell
Rooted(v, r) == LET lim == BPow2(50) m == BPow2(21) t == IF BLt(v, lim) THEN BPow2(20) ELSE BAdd(BPow2(20), "2")
                    sr == BMul(m, r) lo == BSub(sr, t) hi == BAdd(sr, t) sv == BMul(v, BPow2(42))
                IN /\ BLe(Zero, r)
                   /\ (BLe(lo, Zero) \/ BLe(BMul(lo, lo), sv)) /\ BLe(sv, BMul(hi, hi))
Step(e) ==
    CASE e[1] = "inside" -> e[4] = Inside(e[2], e[3]) /\ e[5] = Inside(e[3], e[2])
      \* vertices, triangles, point, strictly inside the region, triangles the point is in
      [] e[1] = "mesh" -> /\ e[6] = [k \in 1..Len(e[3]) |-> InTriangle(e[4], Tri(e[2], e[3][k]))]
                          /\ LET c == Cardinality({k \in 1..Len(e[3]) : e[6][k]}) IN c = 1 \/ (c = 0 /\ ~e[5])
      [] e[1] = "near" -> e[4] = NearPoint(e[2], e[3])
      [] e[1] = "line" -> e[5] = NearLine(e[2], e[3], e[4])
      [] e[1] = "edge" -> e[5] = NearEdge(e[2], e[3], e[4])
      [] e[1] = "ray" -> e[5] = NearRay(e[2], e[3], e[4])
      [] e[1] = "segment" -> e[5] = NearSegment(e[2], e[3], e[4])
      [] e[1] = "hitedge" -> e[6] = NearEdge(VSub(e[2], e[4]), e[3], VSub(e[5], e[4]))
      [] e[1] = "hitray" -> e[6] = NearRay(VSub(e[2], e[4]), e[3], VSub(e[5], e[4]))
      [] e[1] = "less" -> e[6] = BLt(BMul(e[2], e[3]), BMul(e[4], e[5]))
      \* polygon, point, result as a signed number
      [] e[1] = "poly" -> OnBoundary(e[2], e[3]) \/ e[4] = ToString(Winding(e[2], e[3]))
      [] e[1] = "vec" -> LET w == Vec(e[2], e[3], e[4]) IN e[5] = w
      \* argument, root; arguments of successive roots ascend in the driver, so must the results
      [] e[1] = "isqrt" -> Rooted(e[2], e[3])
      [] e[1] = "hypot" -> Rooted(Sqr(e[2]), e[3])
      [] e[1] = "mono" -> BLe(e[2], e[4]) => BLe(e[3], e[5])
      [] e[1] = "angle" -> e[3] = BSigned(BTrunc(BQuo(BMul(e[2], BPow2(31)), "360"), 32), 32)
TInit == s \in 1..Len(Sessions) /\ i = 1
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
