------------------------------ MODULE AtomicMC ------------------------------
(* Every value of an 8 bit atomic under every operation with the operands that matter; the laws below tie the bitwise
   and arithmetic operations to each other (full adder identities, inverses, complement). *)
EXTENDS Atomic, Json
CONSTANTS Signed, Operands
VARIABLES v, prev, op
T == [k |-> "int", bits |-> 8, signed |-> Signed]
ONE(n) == <<Norm(T, B(n))>>
Ops2 == {"store", "exch", "add", "sub", "xor", "and", "or"}
Init == v = ONE(0) /\ prev = ONE(0) /\ op = <<"init", "0">>
Do(name, x) == /\ op' = <<name, x[1]>> /\ v' = Apply(T, name, v, x)[1] /\ prev' = v
DoCas(e, d) == /\ op' = <<"cas", e[1], d[1]>> /\ v' = Cas(v, e, d).v /\ prev' = v
Next == \/ \E n \in Operands, o \in Ops2 : Do(o, ONE(n))
        \/ op' = <<"load">> /\ v' = Apply(T, "load", v, v)[1] /\ prev' = v
        \/ \E n \in Operands : DoCas(v, ONE(n))
        \/ \E n, m \in Operands : DoCas(ONE(n), ONE(m))
In == LET n == BInt(v[1]) IN IF Signed THEN n \in -128..127 ELSE n \in 0..255
Laws == \A n \in Operands : LET x == ONE(n) A(o, a, b) == Apply(T, o, a, b)[1] IN
        /\ A("sub", A("add", v, x), x) = v /\ A("add", A("sub", v, x), x) = v
        /\ A("xor", A("xor", v, x), x) = v
        /\ A("add", v, x) = A("add", A("xor", v, x), A("add", A("and", v, x), A("and", v, x)))
        /\ A("add", A("and", v, x), A("or", v, x)) = A("add", v, x)
        /\ A("xor", A("and", v, x), A("or", v, x)) = A("xor", v, x)
        /\ Apply(T, "exch", v, x) = <<x, v>>
        /\ (Cas(v, x, v).ok <=> v = x) /\ Cas(v, v, x) = [v |-> x, ok |-> TRUE, exp |-> v]
        /\ (v # x => Cas(v, x, x) = [v |-> v, ok |-> FALSE, exp |-> v])
View == v
Emit == PrintT("@T " \o ToJson([f |-> ToString(v), o |-> op', t |-> ToString(v'), i |-> op = <<"init", "0">>]))
=============================================================================
