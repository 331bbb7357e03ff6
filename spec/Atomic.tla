------------------------------- MODULE Atomic -------------------------------
(* One atomic object, one thread.  A value is a sequence of component numbers (decimal strings); a type says how each
   component behaves: 
     k = "int"   two's complement of `bits` bits, signed or not (results wrap)
     k = "exact" numbers that never leave the exactly representable range: pointers (element offsets), floating point
                 (scaled integers), the components of structs of such
   Every operation gives <<new value, what it returned>>; compare_exchange also gives what it left in `expected`. *)
EXTENDS Big
Norm(t, a) == IF t.k = "int" THEN (IF t.signed THEN BSigned(BTrunc(a, t.bits), t.bits) ELSE BTrunc(a, t.bits)) ELSE a
Lift(F(_, _), t, a, b) == [j \in DOMAIN a |-> Norm(t, F(a[j], b[j]))]
\* exclusive or, and, or of the bit patterns
Bits(t, a) == BTrunc(a, t.bits)
BX(t, a, b) == [j \in DOMAIN a |-> Norm(t, BXor(Bits(t, a[j]), Bits(t, b[j])))]
BA(t, a, b) == [j \in DOMAIN a |-> Norm(t, BAnd(Bits(t, a[j]), Bits(t, b[j])))]
BO(t, a, b) == [j \in DOMAIN a |-> Norm(t, BOr(Bits(t, a[j]), Bits(t, b[j])))]
Apply(t, op, v, x) ==
    CASE op = "load"  -> <<v, v>>
      [] op = "store" -> <<x, <<>>>>
      [] op = "exch"  -> <<x, v>>
      [] op = "add"   -> <<Lift(BAdd, t, v, x), v>>
      [] op = "sub"   -> <<Lift(BSub, t, v, x), v>>
      [] op = "xor"   -> <<BX(t, v, x), v>>
      [] op = "and"   -> <<BA(t, v, x), v>>
      [] op = "or"    -> <<BO(t, v, x), v>>
Cas(v, expected, desired) == IF v = expected THEN [v |-> desired, ok |-> TRUE, exp |-> expected] ELSE [v |-> v, ok |-> FALSE, exp |-> v]
=============================================================================
