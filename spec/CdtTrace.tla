------------------------------ MODULE CdtTrace ------------------------------
(* params <<Q, capacity>>.  Every event that can change the mesh carries the mesh afterwards. *)
EXTENDS Cdt, TraceKit
VARIABLES s, i, V, F, free    \* free: no edge has been inserted yet
tvars == <<s, i, V, F, free>>
Q == Par(s)[1]
Cap == IF Par(s)[2] > 8192 THEN 8192 ELSE Par(s)[2]
What == IOEnv.WHAT            \* the property under check: "C01" ... "C05", or "all"
Ask(p) == What = p \/ What = "all"
Grid(x) == 2 * (x \div 2^(Q + 1))
Pt(x, y) == <<Grid(x), Grid(y)>>
\* what every mesh must satisfy
Good(v, f, fr) == /\ (Ask("C01") => Mesh(v, f))
                  /\ (Ask("C03") /\ fr => IF Len(v) <= 40 THEN Delaunay(v, f) ELSE LocallyDelaunay(v, f))
NewMesh(v, f) == V' = v /\ F' = f
Point(e) == LET p == Pt(e[2], e[3]) v == e[5] f == e[6] IN
    /\ NewMesh(v, f) /\ free' = free /\ Good(v, f, free)
    /\ (Ask("C02") => /\ e[4] = Accepts(V, Cap, p)
                      /\ v = AfterPoint(V, Cap, p)
                      /\ (v = V => f = F))
    /\ (Ask("C04") => Cons(f) = IF Len(v) = Len(V) THEN Cons(F) ELSE SplitAt(V, Cons(F), Len(v), v[Len(v)]))
\* many points into a mesh: the accepted new ones, in order, become vertices
Points(e) == LET ps == e[2] ok == e[3] v == e[4] f == e[5] IN
    /\ NewMesh(v, f) /\ free' = free /\ Good(v, f, free)
    /\ (Ask("C02") => LET inside == {j \in DOMAIN ps : LET p == Pt(ps[j][1], ps[j][2]) IN InSquare(V, p) /\ ~Hull(V, p)}
                          was == {V[j] : j \in DOMAIN V} now == {v[j] : j \in DOMAIN v}
                          firsts == {Pt(ps[j][1], ps[j][2]) : j \in {k \in inside : ok[k]}} IN
                      /\ Len(v) >= Len(V) /\ SubSeq(v, 1, Len(V)) = V /\ Len(v) <= Cap /\ Cardinality(now) = Len(v)
                      /\ now = was \cup firsts
                      /\ \A j \in DOMAIN ps : ~ok[j] => j \notin inside \/ Len(v) = Cap)
    /\ (Ask("C04") /\ free => Cons(f) = HullCons)
Sides2(f) == {{PA(f, h), PB(f, h)} : h \in Sides(f)}
Cross(v, x, p, q) == Orient(p, q, v[Lo(x)]) * Orient(p, q, v[Hi(x)]) < 0 /\ Orient(v[Lo(x)], v[Hi(x)], p) * Orient(v[Lo(x)], v[Hi(x)], q) < 0
\* x is the diagonal of a strictly convex quadrilateral with a and b on its sides
Convex(v, x, a, b) == Orient(v[a], v[b], v[Lo(x)]) * Orient(v[a], v[b], v[Hi(x)]) < 0 /\ Orient(v[Lo(x)], v[Hi(x)], v[a]) * Orient(v[Lo(x)], v[Hi(x)], v[b]) < 0
Edge(e) == LET p == Pt(e[2], e[3]) q == Pt(e[4], e[5]) ok == e[6] v == e[7] f == e[8]
               v1 == AfterPoint(V, Cap, p) v2 == IF Has(v1, p) THEN AfterPoint(v1, Cap, q) ELSE v1
               C0 == Cons(F) C == Cons(f)
               a == CHOOSE j \in 1..Len(v) : v[j] = p b == CHOOSE j \in 1..Len(v) : v[j] = q
               new == Fresh(v, C0, C)
               old == Has(V, p) /\ Has(V, q) /\ p # q      \* between two vertices there were
               E0 == Sides2(F)
               cut == {x \in E0 : Cross(V, x, p, q)}       \* edges in the way
               S == On(V, a, b)                            \* vertices on the way
               Line == {x \in E0 : x \subseteq S}
           IN
    /\ NewMesh(v, f) /\ free' = FALSE /\ Good(v, f, FALSE)
    /\ (Ask("C02") => /\ Len(v) >= Len(v2) /\ SubSeq(v, 1, Len(v2)) = v2 /\ Len(v) <= Cap /\ Cardinality({v[j] : j \in DOMAIN v}) = Len(v)
                      /\ (~Has(v1, p) => ~ok /\ v = V /\ f = F)
                      /\ (ok => Has(v, p) /\ Has(v, q))
                      /\ (p = q => v = v2 /\ ok = Has(v, p)))
    /\ (Ask("C04") => \* what was constrained still is, over its whole length
                      /\ \A x \in C0 \ C : Covered(v, C, Lo(x), Hi(x))
                      \* whatever is constrained beyond that comes of the new edge, and hangs together with it unless it failed
                      /\ (new # {} => p # q /\ Has(v, p) /\ Has(v, q))
                      /\ (new # {} /\ ok => UNION new \subseteq Reach(C, {a}))
                      \* and, as long as no other edge was in the mesh, lies along it
                      /\ (C0 = HullCons => \A x \in new : \A j \in x : Near(p, q, v[j], 8))
                      /\ (ok => Has(v, p) /\ Has(v, q))
                      \* success: the ends are connected
                      /\ (ok /\ p # q => b \in Reach(IF C0 = HullCons THEN new \cup {x \in C : \A j \in x : OnSeg(v, {a, b}, v[j])} ELSE C, {a}))
                      \* an edge that is there, or that flipping one unconstrained edge gives, becomes constrained and no other
                      /\ (old /\ {a, b} \in E0 => ok /\ v = V /\ C = C0 \cup {{a, b}})
                      /\ (old /\ S = {a, b} /\ Cardinality(cut) = 1 /\ cut \cap C0 = {} /\ (\A x \in cut : Convex(V, x, a, b)) => ok /\ v = V /\ C = C0 \cup {{a, b}})
                      \* so does a straight line of them
                      /\ (old /\ free /\ cut = {} /\ Cardinality(Line) = Cardinality(S) - 1 => ok /\ v = V /\ C = C0 \cup Line))
Locate(e) == LET p == <<e[2], e[3]>> In(f) == InFace(Q, V[F[f][1]], V[F[f][2]], V[F[f][3]], p)
                 lo == V[1][1] * 2^Q hi == V[4][1] * 2^Q IN
    /\ UNCHANGED <<V, F, free>>
    /\ (Ask("C05") => \E hits \in {{f \in 1..Len(F) : In(f)}} :
                      /\ Cardinality(hits) <= 1
                      /\ (p[1] > lo /\ p[1] < hi /\ p[2] > lo /\ p[2] < hi => hits # {})
                      /\ hits = (IF e[4] = 0 THEN {} ELSE {e[4]}))
\* triangles reached from f over unconstrained sides, through those that do not carry the value yet
RECURSIVE Flood(_, _, _)
Flood(S, New, info) == LET N == UNION {{HF(Twin(F, 3 * (f - 1) + k)) : k \in {k \in 1..3 : ~F[f][6 + k] /\ F[f][3 + k] # 0}} : f \in New}
                           M == {g \in N \ S : F[g][10] # info}
                       IN IF M = {} THEN S ELSE Flood(S \cup M, M, info)
Fill(e) == LET f == e[2] info == e[3] v == e[4] G == e[5] IN
    /\ NewMesh(v, G) /\ free' = free /\ Good(v, G, free)
    /\ (Ask("C05") => /\ v = V /\ Len(G) = Len(F)
                      /\ \E R \in {IF F[f][10] = info THEN {} ELSE Flood({f}, {f}, info)} :
                           \A g \in DOMAIN F : SubSeq(G[g], 1, 9) = SubSeq(F[g], 1, 9) /\ G[g][10] = IF g \in R THEN info ELSE F[g][10])
W(j) == <<V[j][1] * 2^Q, V[j][2] * 2^Q>>
Views(e) == /\ UNCHANGED <<V, F, free>>
            /\ (Ask("C01") =>
                 /\ Len(e[2]) = 3 * Len(F) /\ Len(e[3]) = Len(F) /\ Len(e[4]) = 3 * Len(F)
                 /\ \A h \in Sides(F) : LET a == W(PA(F, h)) b == W(PB(F, h)) o == W(F[HF(h)][HK(h)]) x == e[2][h] y == e[4][h] IN
                      /\ x = <<a[1], a[2], b[1], b[2], Twin(F, h) < h, Con(F, h)>>
                      /\ y = x \o <<a[1], a[2], b[1], b[2], o[1], o[2]>>
                 /\ \A f \in 1..Len(F) : e[3][f] = W(F[f][1]) \o W(F[f][2]) \o W(F[f][3]) \o SubSeq(F[f], 4, 10))
Step(e) ==
    CASE e[1] = "reset"  -> NewMesh(e[2], e[3]) /\ free' = TRUE /\ Start(e[2], e[3]) /\ Good(e[2], e[3], TRUE) /\ e[2][1] = <<-32768, -32768>> /\ e[2][4] = <<32767, 32767>>
      [] e[1] = "point"  -> Point(e)
      [] e[1] = "points" -> Points(e)
      [] e[1] = "edge"   -> Edge(e)
      [] e[1] = "locate" -> Locate(e)
      [] e[1] = "fill"   -> Fill(e)
      [] e[1] = "views"  -> Views(e)
View == <<s, i>>
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ V = <<>> /\ F = <<>> /\ free = TRUE
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
