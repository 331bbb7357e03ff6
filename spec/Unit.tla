---------------------------------- MODULE Unit ----------------------------------
(* Making a vector of floats a unit vector.  A float is <<negative, mantissa, exponent>>, scaled here to whole multiples of 2^-149. *)
EXTENDS FloatText
Single == <<24, 8>>
Fixed(bits) == LET m == BShl(Mant(Single, bits), Expo(Single, bits) + 149) IN IF Negative(Single, bits) THEN BNeg(m) ELSE m
Sq(a) == BMul(a, a)
SqLen(v) == BAdd(BAdd(Sq(v[1]), Sq(v[2])), Sq(v[3]))
One == BPow2(149)
\* r is v / |v| within a factor 1 - 2^-k .. 1 + 2^-k, and one step of the last place of the smallest floats
Abs(a) == IF BSgn(a) < 0 THEN BNeg(a) ELSE a
\* (|r| - 1)^2 len <= (1 + 2^-k)^2 v^2 One^2   and   (|r| + 1)^2 len >= (1 - 2^-k)^2 v^2 One^2
Part(v, r, len, k) ==
    LET a == Abs(v) b == Abs(r) hi == BAdd(BPow2(k), "1") lo == BSub(BPow2(k), "1") w == BMul(Sq(a), Sq(One)) IN
    /\ BSgn(r) # 0 => BSgn(r) = BSgn(v)
    /\ BSgn(b) # 0 => BLe(BMul(BMul(Sq(BSub(b, "1")), len), Sq(BPow2(k))), BMul(Sq(hi), w))
    /\ BLe(BMul(Sq(lo), w), BMul(BMul(Sq(BAdd(b, "1")), len), Sq(BPow2(k))))
UnitOK(v, r, k) == \E len \in {SqLen(v)} : \A j \in 1..3 : Part(v[j], r[j], len, k)
\* the same scale for all three components, to 2^-k
Parallel(v, r, k) == \A a, b \in 1..3 : LET d == Abs(BSub(BMul(r[a], v[b]), BMul(r[b], v[a])))
                                        IN BLe(BShl(d, k), BAdd(Abs(BMul(r[a], v[b])), BShl(BAdd(Abs(v[a]), Abs(v[b])), k)))
=============================================================================
