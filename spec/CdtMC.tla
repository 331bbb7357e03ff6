------------------------------- MODULE CdtMC -------------------------------
(* Triangulations of a small square, as plain sets of triangles: insertion of a point (in a triangle or on an edge),
   legalisation by flips taken in any order, and constrained edges that are never flipped.
   What is checked here is what Cdt's conditions on a single mesh rely on:
     - splitting and flipping keep the mesh a Mesh, and every sample point of the square lies in exactly one triangle
     - flips come to an end whatever their order (no cycle: Potential strictly falls), and when none is left and nothing
       is constrained, no vertex at all lies inside the circle of a triangle
   The insertions are emitted as scripts for the real code. *)
EXTENDS Cdt, Naturals, TLC, Json
RECURSIVE SetToSeq2(_)
SetToSeq2(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq2(S \ {x})
CONSTANTS N, MaxV, MaxC      \* the square is 0..N, vertices, constrained edges
VARIABLES V, T, C
vars == <<V, T, C>>
Corners == << <<0, 0>>, <<N, 0>>, <<0, N>>, <<N, N>> >>
Rot(t) == LET m == Lo({t[1], t[2], t[3]}) IN IF t[1] = m THEN t ELSE IF t[2] = m THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>
Cw(v, a, b, c) == Rot(IF Orient(v[a], v[b], v[c]) < 0 THEN <<a, b, c>> ELSE <<a, c, b>>)
Has2(t, e) == e \subseteq {t[1], t[2], t[3]}
Opp(t, e) == CHOOSE x \in {t[1], t[2], t[3]} : x \notin e
EdgesOf(t) == {{t[1], t[2]}, {t[2], t[3]}, {t[3], t[1]}}
AllEdges == UNION {EdgesOf(t) : t \in T}
Init == /\ V = Corners /\ C = HullCons
        /\ T = {Cw(Corners, 1, 2, 3), Cw(Corners, 2, 3, 4)}
\* edges that may be flipped: interior, unconstrained, and the vertex across is inside the circle
Bad(e) == e \notin C /\ \E t, u \in T : t # u /\ Has2(t, e) /\ Has2(u, e) /\ InCircle(V[t[1]], V[t[2]], V[t[3]], V[Opp(u, e)]) < 0
Idle == \A e \in AllEdges : ~Bad(e)
Flip(e) == LET ts == {t \in T : Has2(t, e)} o == {Opp(t, e) : t \in ts} a == Lo(o) b == Hi(o) IN
           T' = (T \ ts) \cup {Cw(V, a, b, x) : x \in e}
Legalise == \E e \in AllEdges : Bad(e) /\ Flip(e) /\ UNCHANGED <<V, C>>
Insert(x, y) == LET p == <<x, y>> n == Len(V) + 1 v == Append(V, p)
                    on == {e \in AllEdges : OnSeg(V, e, p)}
                    in == IF on # {} THEN {t \in T : \E e \in on : Has2(t, e)}
                          ELSE {t \in T : \A e \in EdgesOf(t) : Orient(V[Lo(e)], V[Hi(e)], p) = Orient(V[Lo(e)], V[Hi(e)], V[Opp(t, e)])} IN
    /\ Idle /\ ~Has(V, p) /\ Len(V) < MaxV
    /\ V' = v
    /\ T' = (T \ in) \cup {Cw(v, Lo(e), Hi(e), n) : e \in (UNION {EdgesOf(t) : t \in in}) \ on}
    /\ C' = SplitAt(V, C, n, p)
    /\ PrintT("@T " \o ToJson([f |-> <<V, C>>, o |-> <<"point", x, y>>, i |-> IF V = Corners /\ C = HullCons THEN 1 ELSE 0, t |-> <<V', C'>>]))
Constrain(e) == /\ Idle /\ e \in AllEdges \ C /\ Cardinality(C) < MaxC
                /\ C' = C \cup {e} /\ UNCHANGED <<V, T>>
                /\ PrintT("@T " \o ToJson([f |-> <<V, C>>, o |-> <<"edge", V[Lo(e)][1], V[Lo(e)][2], V[Hi(e)][1], V[Hi(e)][2]>>, i |-> 0, t |-> <<V', C'>>]))
Next == Legalise \/ (\E x, y \in 1..(N - 1) : Insert(x, y)) \/ (\E e \in AllEdges : Constrain(e))
\* ---- the mesh as Cdt describes it: sides, links, flags ----
Order == SetToSeq2(T)
ToF == LET S == Order
           Side(g, k) == {S[g][Nx(k)], S[g][Nx(Nx(k))]}
           Tw(f, k) == LET w == {x \in (1..Len(S)) \X (1..3) : x[1] # f /\ Side(x[1], x[2]) = Side(f, k)} IN
                       IF w = {} THEN 0 ELSE LET x == CHOOSE x \in w : TRUE IN 3 * (x[1] - 1) + x[2]
       IN [f \in 1..Len(S) |-> S[f] \o [k \in 1..3 |-> Tw(f, k)] \o [k \in 1..3 |-> Side(f, k) \in C] \o <<0>>]
IsMesh == Mesh(V, ToF) /\ Cons(ToF) = C
\* every sample point strictly inside the square, at half and third positions and vertices alike, in exactly one triangle
Tiled == \A x, y \in 1..(2 * N - 1) : Cardinality({t \in T : InFace(1, V[t[1]], V[t[2]], V[t[3]], <<x, y>>)}) = 1
Area == LET S == Order
            RECURSIVE Sum(_)
            Sum(k) == IF k = 0 THEN 0 ELSE Sum(k - 1) - CrossP(Minus(V[S[k][2]], V[S[k][1]]), Minus(V[S[k][3]], V[S[k][1]])) IN Sum(Len(S)) = 2 * N * N
Empty == Idle => /\ LocallyDelaunay(V, ToF) \/ C # HullCons
                 /\ (C \subseteq {e \in AllEdges : \E h \in HullCons : \A j \in e : OnSeg(V, h, V[j])}) => Delaunay(V, ToF)
\* sum over the triangles of the volume under the lifted triangle (times 6): every legal flip lowers it, so legalisation ends
Lift(p) == p[1] * p[1] + p[2] * p[2]
Pot(v, ts) == LET S == SetToSeq2(ts)
                  RECURSIVE Sum(_)
                  Sum(k) == IF k = 0 THEN 0 ELSE LET t == S[k] IN Sum(k - 1) - CrossP(Minus(v[t[2]], v[t[1]]), Minus(v[t[3]], v[t[1]])) * (Lift(v[t[1]]) + Lift(v[t[2]]) + Lift(v[t[3]])) IN Sum(Len(S))
Falls == [][V' = V /\ T' # T => Pot(V', T') < Pot(V, T)]_vars
Forget == [][\A e \in C : Covered(V', C', Lo(e), Hi(e))]_vars
=============================================================================
