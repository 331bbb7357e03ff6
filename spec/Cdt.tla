--------------------------------- MODULE Cdt ---------------------------------
(* The constrained triangulation.  A mesh is
     V   the vertices <<x, y>>, in order of creation; the first four are the corners of the square
     F   the triangles, each <<p1, p2, p3, t1, t2, t3, c1, c2, c3, info>>: vertices (indices into V), for every side
         (side k lies opposite vertex k) the side of another triangle it is shared with (3 * (triangle - 1) + k, 0: none),
         whether it is constrained, and a user value
   The properties of one mesh, and what an operation may turn one mesh into. *)
EXTENDS Integers, Sequences, FiniteSets, Tri
Nx(k) == IF k = 3 THEN 1 ELSE k + 1
HF(h) == ((h - 1) \div 3) + 1
HK(h) == ((h - 1) % 3) + 1
PA(F, h) == F[HF(h)][Nx(HK(h))]           \* the side runs from PA to PB
PB(F, h) == F[HF(h)][Nx(Nx(HK(h)))]
Twin(F, h) == F[HF(h)][3 + HK(h)]
Con(F, h) == F[HF(h)][6 + HK(h)]
Sides(F) == 1..(3 * Len(F))
Square(V) == LET lo == V[1][1] hi == V[4][1] IN V[1] = <<lo, lo>> /\ V[2] = <<hi, lo>> /\ V[3] = <<lo, hi>> /\ V[4] = <<hi, hi>> /\ lo < hi
Hull(V, p) == p[1] \in {V[1][1], V[4][1]} \/ p[2] \in {V[1][2], V[4][2]}
InSquare(V, p) == p[1] >= V[1][1] /\ p[1] <= V[4][1] /\ p[2] >= V[1][2] /\ p[2] <= V[4][2]

\* ---- one mesh --------------------------------------------------------------------------------------------------
\* Orientation, mutual links and a boundary made of the four sides of the square: together these say that the triangles
\* tile the square exactly once (CdtMC checks that consequence point by point on small meshes)
Shape(V, F) == \A f \in 1..Len(F) : /\ \A k \in 1..3 : F[f][k] \in 1..Len(V)
                                    /\ Orient(V[F[f][1]], V[F[f][2]], V[F[f][3]]) < 0
Links(V, F) == \A h \in Sides(F) : LET t == Twin(F, h) IN
                  IF t = 0 THEN Con(F, h) /\ {PA(F, h), PB(F, h)} \in {{1, 2}, {2, 4}, {4, 3}, {3, 1}}
                  ELSE t \in Sides(F) /\ t # h /\ Twin(F, t) = h /\ PA(F, t) = PB(F, h) /\ PB(F, t) = PA(F, h) /\ Con(F, t) = Con(F, h)
Whole(V, F) == Len(F) = 2 * Len(V) - 6 /\ Cardinality({h \in Sides(F) : Twin(F, h) = 0}) = 4
Mesh(V, F) == Square(V) /\ Shape(V, F) /\ Links(V, F) /\ Whole(V, F)
\* no vertex strictly inside the circle of any triangle: side by side, which implies it for all (checked by CdtMC, and
\* in full by Delaunay)
LocallyDelaunay(V, F) == \A h \in Sides(F) : LET t == Twin(F, h) f == F[HF(h)] IN
                            (t # 0 /\ t > h) => InCircle(V[f[1]], V[f[2]], V[f[3]], V[F[HF(t)][HK(t)]]) >= 0
Delaunay(V, F) == \A f \in 1..Len(F), p \in 1..Len(V) : InCircle(V[F[f][1]], V[F[f][2]], V[F[f][3]], V[p]) >= 0
\* constrained edges, as sets of two vertices
Cons(F) == {{PA(F, h), PB(F, h)} : h \in {g \in Sides(F) : Con(F, g)}}
HullCons == {{1, 2}, {2, 4}, {4, 3}, {3, 1}}
Start(V, F) == Len(V) = 4 /\ Len(F) = 2 /\ Mesh(V, F) /\ Cons(F) = HullCons

\* ---- points ----------------------------------------------------------------------------------------------------
Lo(e) == CHOOSE x \in e : \A y \in e : x <= y
Hi(e) == CHOOSE x \in e : \A y \in e : x >= y
OnSeg(V, e, p) == Between(V[Lo(e)], V[Hi(e)], p)
Has(V, p) == \E j \in 1..Len(V) : V[j] = p
\* a point is accepted when it is a vertex already, or strictly inside the square with room left
Accepts(V, cap, p) == Has(V, p) \/ (InSquare(V, p) /\ ~Hull(V, p) /\ Len(V) < cap)
AfterPoint(V, cap, p) == IF Has(V, p) \/ ~Accepts(V, cap, p) THEN V ELSE Append(V, p)
\* constrained edges after p has become vertex n: the one it lies on is split
SplitAt(V, C, n, p) == UNION {IF OnSeg(V, e, p) THEN {{Lo(e), n}, {n, Hi(e)}} ELSE {e} : e \in C}
\* ---- edges -----------------------------------------------------------------------------------------------------
\* vertices of V on the segment a b, a and b included
On(V, a, b) == {j \in 1..Len(V) : Between(V[a], V[b], V[j])}
\* the whole segment between vertices a and b is covered by edges of C
Covered(V, C, a, b) == LET S == On(V, a, b) IN
    \A j \in S : j = b \/ \E k \in S \ {j} : {j, k} \in C /\ Between(V[j], V[b], V[k])
\* the open segment p q meets the open edge e in one point
Meets(V, e, p, q) == /\ Orient(p, q, V[Lo(e)]) * Orient(p, q, V[Hi(e)]) < 0 /\ Orient(V[Lo(e)], V[Hi(e)], p) * Orient(V[Lo(e)], V[Hi(e)], q) < 0
Piece(V, e, s) == \A j \in s : OnSeg(V, e, V[j])
\* the constrained edges of C that are not parts of edges of Old
Fresh(V, Old, C) == {s \in C \ Old : ~\E e \in Old : Piece(V, e, s)}
RECURSIVE Spread(_, _, _)
Spread(E, S, New) == LET N == UNION {e \in E : e \cap New # {}} \ S IN IF N = {} THEN S ELSE Spread(E, S \cup N, N)
Reach(E, S) == Spread(E, S, S)
=============================================================================
