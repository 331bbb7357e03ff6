------------------------------ MODULE ReflectMC ------------------------------
(* Values of every small type are replaced by what a reading visitor supplies: the events of a writing visitor afterwards
   are exactly the supplied ones, and parts that are not bound, or beyond a list's size, keep their contents. *)
EXTENDS Reflect, TLC
CONSTANTS Deep
VARIABLES ty, val
A == <<"atom">>
Bits == {<<0>>, <<1>>}
C(fs) == <<"class", fs>>
F(n, k, t) == <<<<n>>, k, t>>
T1 == {A, C(<<F(1, 2, A)>>), C(<<F(2, 2, A), F(1, 1, A)>>), <<"array", A>>, <<"list", A>>, <<"as", 1, A>>, <<"as", 0, <<"array", A>>>>}
T2 == {C(<<F(7, 1, t), F(8, 2, A)>>) : t \in T1} \cup {<<"array", t>> : t \in T1} \cup {<<"list", t>> : t \in T1} \cup {<<"as", 2, t>> : t \in T1}
\* all values of a type; classes have two fields, arrays two items, lists two slots; a field that is not bound is an atom
RECURSIVE Values(_)
Field(t, k) == LET b == {j \in 1..Len(t[2]) : t[2][j][2] = k} IN IF b = {} THEN A ELSE t[2][CHOOSE j \in b : TRUE][3]
Values(t) == CASE t[1] = "atom" -> Bits
               [] t[1] = "class" -> {<<x, y>> : x \in Values(Field(t, 1)), y \in Values(Field(t, 2))}
               [] t[1] = "array" -> {<<x, y>> : x \in Values(t[2]), y \in Values(t[2])}
               [] t[1] = "list" -> {<<n, <<x, y>>>> : n \in 0..2, x \in Values(t[2]), y \in Values(t[2])}
               [] t[1] = "as" -> IF t[2] = 0 THEN Values(t[3])
                                 ELSE {<<x, y>> : x \in Values(IF t[2] = 1 THEN t[3] ELSE A), y \in Values(IF t[2] = 2 THEN t[3] ELSE A)}
\* the part of v a visitor cannot see, with atoms it does see masked
RECURSIVE Hidden(_, _)
Hidden(t, v) == CASE t[1] = "atom" -> <<>>
                  [] t[1] = "class" -> [k \in 1..2 |-> IF \E j \in 1..Len(t[2]) : t[2][j][2] = k THEN Hidden(Field(t, k), v[k]) ELSE v[k]]
                  [] t[1] = "array" -> [k \in 1..2 |-> Hidden(t[2], v[k])]
                  [] t[1] = "list" -> [k \in 1..2 |-> IF k <= v[1] THEN Hidden(t[2], v[2][k]) ELSE v[2][k]]
                  [] t[1] = "as" -> IF t[2] = 0 THEN Hidden(t[3], v) ELSE [k \in 1..2 |-> IF k = t[2] THEN Hidden(t[3], v[k]) ELSE v[k]]
Small == {t \in T1 \cup T2 : Cardinality(Values(t)) <= Deep}
Init == ty \in Small /\ val \in Values(ty)
Supply(w) == LET es == Visit(ty, w) r == Read(ty, val, es, 1)
             IN /\ Assert(r.ok /\ r.p = Len(es) + 1, "a well formed supply is refused")
                /\ Assert(Visit(ty, r.v) = es, "written differs from read")
                /\ Assert(ty[1] = "list" \/ Hidden(ty, r.v) = Hidden(ty, val) \/ ty \in T2, "hidden parts changed")
                /\ val' = r.v /\ ty' = ty
Next == \E w \in Values(ty) : Supply(w)
Balanced == LET es == Visit(ty, val) IN
            /\ Cardinality({j \in 1..Len(es) : es[j][1] \in {"ec", "ea"}}) = Cardinality({j \in 1..Len(es) : es[j][1] \in {"lc", "la"}})
            /\ ~Reads(ty, val, es \o <<Atom(<<0>>)>>, val)
            /\ (Len(es) > 1 => ~Reads(ty, val, Tail(es), val))
            /\ Reads(ty, val, es, val)
=============================================================================
