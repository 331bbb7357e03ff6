------------------------------- MODULE TriTest -------------------------------
EXTENDS Tri, Geo
CONSTANT N
VARIABLE x
T == INSTANCE TriDef
Pts == (0..N) \X (0..N)
Far == {<<-32768, -32768>>, <<32767, -32768>>, <<32767, 32767>>, <<0, 1>>, <<-5, 32766>>, <<12345, -777>>}
G(p) == <<B(p[1]), B(p[2])>>
GC(a, b, c, d) == LET u == VSub(G(a), G(d)) v == VSub(G(b), G(d)) w == VSub(G(c), G(d)) IN
                  BSgn(BAdd(BAdd(BMul(Sqr(u), Cross(v, w)), BMul(Sqr(v), Cross(w, u))), BMul(Sqr(w), Cross(u, v))))
ASSUME \A a, b, c, d \in Pts : /\ InCircle(a, b, c, d) = T!InCircle(a, b, c, d)
                               /\ InFace(0, a, b, c, d) = T!InFace(0, a, b, c, d)
ASSUME \A a, b, c \in Pts : /\ Orient(a, b, c) = T!Orient(a, b, c) /\ Between(a, b, c) = T!Between(a, b, c)
                            /\ \A r \in 0..2 : Near(a, b, c, r) = T!Near(a, b, c, r)
ASSUME \A a, b, c, d \in Far : /\ InCircle(a, b, c, d) = GC(a, b, c, d)
                               /\ InFace(0, a, b, c, d) = InTriangle(G(d), <<G(a), G(b), G(c)>>)
ASSUME \A a, b, c \in Far : Orient(a, b, c) = BSgn(Cross(VSub(G(b), G(a)), VSub(G(c), G(a))))
Init == x = 0
Next == x' = x
=============================================================================
