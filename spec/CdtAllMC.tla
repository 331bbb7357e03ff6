------------------------------ MODULE CdtAllMC ------------------------------
(* Every set of clockwise triangles over the corners of a small square and a few inner points, with every way to link sides
   that Cdt's conditions allow: those that count as a Mesh cover each sample point exactly once, and those that do so
   are counted.  So the conditions checked on the real meshes do say "tiles the square". *)
EXTENDS Cdt, Naturals, TLC
CONSTANTS N, Inner        \* the square is 0..N, inner points
RECURSIVE SetToSeq2(_)
SetToSeq2(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq2(S \ {x})
VARIABLES V, T
vars == <<V, T>>
Corners == << <<0, 0>>, <<N, 0>>, <<0, N>>, <<N, N>> >>
Pts == {<<x, y>> : x, y \in 1..(N - 1)}
PtLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Cand(v) == {t \in {<<a, b, c>> : a, b, c \in 1..Len(v)} : t[1] < t[2] /\ t[1] < t[3] /\ t[2] # t[3] /\ Orient(v[t[1]], v[t[2]], v[t[3]]) < 0}
Init == /\ V \in {Corners \o p : p \in {q \in [1..Inner -> Pts] : \A j \in 1..(Inner - 1) : PtLess(q[j], q[j + 1])}}
        /\ T = {}
\* triangles are added in increasing order, only while no directed side occurs twice (Links forbids that: both would share
\* the other side)
Dir(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
Rank(t) == (t[1] * 16 + t[2]) * 16 + t[3]
Next == /\ Cardinality(T) < 2 * Len(V) - 6
        /\ \E t \in Cand(V) : /\ \A u \in T : Rank(u) < Rank(t) /\ Dir(u) \cap Dir(t) = {}
                              /\ T' = T \cup {t} /\ V' = V
ToF == LET S == SetToSeq2(T)
           D(g, k) == <<S[g][Nx(k)], S[g][Nx(Nx(k))]>>
           Tw(f, k) == LET w == {x \in (1..Len(S)) \X (1..3) : D(x[1], x[2]) = <<D(f, k)[2], D(f, k)[1]>>} IN
                       IF w = {} THEN 0 ELSE LET x == CHOOSE x \in w : TRUE IN 3 * (x[1] - 1) + x[2]
       IN [f \in 1..Len(S) |-> S[f] \o [k \in 1..3 |-> Tw(f, k)] \o [k \in 1..3 |-> Tw(f, k) = 0] \o <<0>>]
Covers(x, y) == Cardinality({t \in T : InFace(1, V[t[1]], V[t[2]], V[t[3]], <<x, y>>)})
Tiled == \A x, y \in 1..(2 * N - 1) : Covers(x, y) = 1
Iff == Cardinality(T) = 2 * Len(V) - 6 => (Mesh(V, ToF) => Tiled)
\* the conditions do not exclude what does tile with every vertex in use and none inside a side
Used == \A j \in 1..Len(V) : \E t \in T : j \in {t[1], t[2], t[3]}
Proper == \A t \in T : \A s \in Dir(t) : \A j \in 1..Len(V) \ {s[1], s[2]} : ~Between(V[s[1]], V[s[2]], V[j])
Converse == (Cardinality(T) = 2 * Len(V) - 6 /\ Tiled /\ Used /\ Proper) => Mesh(V, ToF)
=============================================================================
