------------------------------- MODULE Cordic -------------------------------
(* Rotation and direction of integer vectors.  Angles are whole numbers of 2^-bits turns; sine and cosine are fixed point
   numbers of P fraction bits, from their Taylor series. *)
EXTENDS Big, Integers, Sequences
P == 100
One == BPow2(P)
Fx(a, b) == BShr(BMul(a, b), P)
Atan(n) == \* atan(1 / n) for n > 1
    LET nn == BMul(n, n)
        RECURSIVE F(_, _, _)
        F(term, k, sgn) == IF term = "0" THEN "0"
                           ELSE LET t == BDiv(term, ToString(k)) IN BAdd(IF sgn > 0 THEN t ELSE BNeg(t), F(BDiv(term, nn), k + 2, -sgn))
    IN F(BDiv(One, n), 1, 1)
\* 16 atan(1/5) - 4 atan(1/239), as TLC evaluates it once (CordicTest)
PiFormula == BSub(BMul("16", Atan("5")), BMul("4", Atan("239")))
Pi == "3982441812995697363688351113952"
\* <<cos, sin>> of an angle below an eighth of a turn in magnitude
Taylor(a) ==
    LET RECURSIVE F(_, _)
        F(term, k) == \* <<sum of even terms from k, of odd ones>> with their signs; |term| = a^k / k!
            IF term = "0" \/ term = "-1" \/ k > 60 THEN <<"0", "0">>
            ELSE LET r == F(BDiv(Fx(term, a), ToString(k + 1)), k + 1)
                     t == IF (k \div 2) % 2 = 1 THEN BNeg(term) ELSE term
                 IN IF k % 2 = 0 THEN <<BAdd(t, r[1]), r[2]>> ELSE <<r[1], BAdd(t, r[2])>>
    IN F(One, 0)
\* <<cos, sin>> of t / 2^bits turns
CosSin(t, bits) ==
    LET q == BDiv(BAdd(t, BPow2(bits - 3)), BPow2(bits - 2))
        u == BSub(t, BMul(q, BPow2(bits - 2)))
        c == Taylor(BDiv(BMul(Pi, u), BPow2(bits - 1)))
        m == BInt(BMod(q, "4"))
    IN IF m = 0 THEN c ELSE IF m = 1 THEN <<BNeg(c[2]), c[1]>> ELSE IF m = 2 THEN <<BNeg(c[1]), BNeg(c[2])>> ELSE <<c[2], BNeg(c[1])>>
\* the vector v turned by an angle with that cosine and sine, in fixed point
Turned(v, c) == <<BSub(BMul(v[1], c[1]), BMul(v[2], c[2])), BAdd(BMul(v[1], c[2]), BMul(v[2], c[1]))>>
\* |n - x| <= d for an integer n and a fixed point x (a unit of the 2^40 below the point is forgiven)
Within(n, x, d) == LET e == BSub(BMul(n, One), x) m == BAdd(BMul(ToString(d), One), BPow2(P - 40)) IN BLe(e, m) /\ BLe(BNeg(m), e)
RotateOK(v, t, bits, w, d) == \E p \in {Turned(v, CosSin(t, bits))} : Within(w[1], p[1], d) /\ Within(w[2], p[2], d)
SqrLen(v) == BAdd(BMul(v[1], v[1]), BMul(v[2], v[2]))
MagOK(v, m, d) == \E n \in {SqrLen(v)} : \E hi \in {BAdd(m, ToString(d))} : \E lo \in {BSub(m, ToString(d))} :
                  BLe("0", hi) /\ BLe(n, BMul(hi, hi)) /\ (BLe(lo, "0") \/ BLe(BMul(lo, lo), n))
\* the direction of v is within d units of the angle t: v lies in the wedge from t - d to t + d
AngleOK(v, t, bits, d) ==
    \E a \in {CosSin(BSub(t, ToString(d)), bits)} : \E b \in {CosSin(BAdd(t, ToString(d)), bits)} :
      /\ BLe("0", BSub(BMul(a[1], v[2]), BMul(a[2], v[1])))
      /\ BLe("0", BSub(BMul(v[1], b[2]), BMul(v[2], b[1])))
      /\ BLt("0", BAdd(BMul(a[1], v[1]), BMul(a[2], v[2])))
=============================================================================
