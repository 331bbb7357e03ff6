--------------------------------- MODULE UnitMC ---------------------------------
(* The unit vector relation accepts the exact result and slight deviations, and nothing else, for vectors of whole length. *)
EXTENDS Unit
VARIABLE v
Vecs == {<<a, b, c, l>> \in (-6..6) \X (-6..6) \X (-6..6) \X (1..9) : a * a + b * b + c * c = l * l}
Init == v \in Vecs
Next == UNCHANGED v
Vec == <<ToString(v[1]), ToString(v[2]), ToString(v[3])>>
\* exact result times (2^k + n) / 2^k
Res(n, k) == [j \in 1..3 |-> BQuo(BMul(BMul(ToString(v[j]), One), BAdd(BPow2(k), ToString(n))), BMul(ToString(v[4]), BPow2(k)))]
Accept == UnitOK(Vec, Res(0, 1), 11) /\ UnitOK(Vec, Res(1, 12), 11) /\ UnitOK(Vec, Res(-1, 12), 11) /\ Parallel(Vec, Res(0, 1), 20) /\ Parallel(Vec, Res(1, 12), 20)
Refuse == ~UnitOK(Vec, Res(1, 10), 11) /\ ~UnitOK(Vec, Res(-1, 10), 11) /\ ~UnitOK(Vec, Res(-4, 1), 11)
          /\ \A w \in Vecs : LET r == [j \in 1..3 |-> BQuo(BMul(ToString(w[j]), One), ToString(w[4]))]
                             IN (UnitOK(Vec, r, 11) => \A j \in 1..3 : w[j] * v[4] = v[j] * w[4])
Inv == Accept /\ Refuse
=============================================================================
