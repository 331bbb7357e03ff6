------------------------------- MODULE FloatText -------------------------------
(* Binary floating point numbers as text: the shortest decimal text that reads back to the same number. *)
EXTENDS Big, FiniteSets
\* a format <<p, w>>: p bits of precision (one implied), w exponent bits.  float <<24, 8>>, double <<53, 11>>
Bias(f) == 2^(f[2] - 1) - 1
Field(f, bits) == BInt(BTrunc(BShr(bits, f[1] - 1), f[2]))
Frac(f, bits) == BTrunc(bits, f[1] - 1)
Negative(f, bits) == BShr(bits, f[1] - 1 + f[2]) # "0"
Special(f, bits) == Field(f, bits) = 2^f[2] - 1
IsNan(f, bits) == Special(f, bits) /\ Frac(f, bits) # "0"
IsZero(f, bits) == Field(f, bits) = 0 /\ Frac(f, bits) = "0"
\* a finite number is Mant * 2^Expo
Mant(f, bits) == IF Field(f, bits) = 0 THEN Frac(f, bits) ELSE BAdd(Frac(f, bits), BPow2(f[1] - 1))
Expo(f, bits) == (IF Field(f, bits) = 0 THEN 1 ELSE Field(f, bits)) - Bias(f) - (f[1] - 1)
RECURSIVE BPow10(_)
BPow10(k) == IF k = 0 THEN "1" ELSE IF k % 2 = 1 THEN BMul("10", BPow10(k - 1)) ELSE BMul(BPow10(k \div 2), BPow10(k \div 2))
Pos(n) == IF n > 0 THEN n ELSE 0
\* d * 10^k compared with n * 2^x : negative, 0, positive
Cmp(d, k, n, x) == BSgn(BSub(BMul(BMul(d, BPow10(Pos(k))), BPow2(Pos(-x))), BMul(BMul(n, BPow2(Pos(x))), BPow10(Pos(-k)))))
\* d * 10^k reads back (nearest, ties to even) to the number: it lies in the rounding interval of the number, in units of 2^(Expo - 2)
Reads(f, bits, d, k) ==
    LET m == Mant(f, bits) x == Expo(f, bits)
        up == BAdd(BMul("4", m), "2")
        dn == IF Frac(f, bits) = "0" /\ Field(f, bits) > 1 THEN BSub(BMul("4", m), "1") ELSE BSub(BMul("4", m), "2")
        a == Cmp(d, k, dn, x - 2) b == Cmp(d, k, up, x - 2)
    IN IF BTrunc(m, 1) = "0" THEN a >= 0 /\ b <= 0 ELSE a > 0 /\ b < 0
\* drop digits as long as a neighbour with one digit less still reads back : <<digits as number, exponent>>
RECURSIVE Shorten(_, _, _, _)
Shorten(f, bits, d, k) ==
    LET q == BDiv(d, "10")
    IN IF q # "0" /\ Reads(f, bits, q, k + 1) THEN Shorten(f, bits, q, k + 1)
       ELSE IF Reads(f, bits, BAdd(q, "1"), k + 1) /\ d # "1" THEN Shorten(f, bits, BAdd(q, "1"), k + 1)
       ELSE IF BMod(d, "10") = "0" /\ d # "0" THEN Shorten(f, bits, q, k + 1)
       ELSE <<d, k>>
RECURSIVE NumDigits(_)
NumDigits(d) == IF BLt(d, "10") THEN 1 ELSE 1 + NumDigits(BDiv(d, "10"))
\* characters needed for n digits, the first of which stands for 10^x : plain (1200, 12.5, 0.00125), with exponent (1.25e-03)
Plain(n, x) == IF x < 0 THEN 1 - x + n ELSE IF n <= x + 1 THEN x + 1 ELSE n + 1
WithExp(n, x) == n + (IF n > 1 THEN 1 ELSE 0) + (IF x > 99 \/ x < -99 THEN 5 ELSE 4)
Width(n, x) == IF WithExp(n, x) < Plain(n, x) THEN WithExp(n, x) ELSE Plain(n, x)
\* reading text, as character codes
IsDigit(c) == c \in 48..57
RECURSIVE Read(_, _, _)
Read(t, j, acc) == IF j > Len(t) THEN acc ELSE Read(t, j + 1, IF IsDigit(t[j]) THEN BAdd(BMul(acc, "10"), ToString(t[j] - 48)) ELSE acc)
Find(t, c) == LET z == {j \in 1..Len(t) : t[j] = c} IN IF z = {} THEN 0 ELSE CHOOSE j \in z : \A m \in z : j <= m
Unsigned(t) == IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE t
Mantissa(t) == LET e == Find(t, 101) IN IF e = 0 THEN t ELSE SubSeq(t, 1, e - 1)
Places(m) == LET p == Find(m, 46) IN IF p = 0 THEN 0 ELSE Len(m) - p
TenExp(t) == LET e == Find(t, 101) IN IF e = 0 THEN 0 ELSE LET v == BInt(Read(t, e + 2, "0")) IN IF t[e + 1] = 45 THEN -v ELSE v
\* a number without sign: digits, at most one point with digits on both sides, at most one exponent with a sign and 2 or more digits
WellFormed(t) ==
    LET e == Find(t, 101) m == Mantissa(t) p == Find(m, 46)
    IN /\ m # <<>> /\ IsDigit(m[1]) /\ IsDigit(m[Len(m)])
       /\ \A j \in 1..Len(m) : IsDigit(m[j]) \/ j = p
       /\ e # 0 => /\ Len(t) >= e + 3 /\ t[e + 1] \in {43, 45} /\ \A j \in (e + 2)..Len(t) : IsDigit(t[j])
                   /\ (p = 0 => Len(m) = 1) /\ (p # 0 => p = 2) /\ m[1] # 48
T_Inf == <<105, 110, 102>>
T_Nan == <<110, 97, 110>>
\* t is a text of the number: special values by name, others the shortest text that reads back, plain if there is a choice,
\* and no other text of the same length is closer
IsText(f, bits, t) ==
    LET u == Unsigned(t) IN
    IF IsNan(f, bits) THEN u = T_Nan
    ELSE /\ (t # u) = Negative(f, bits)
         /\ IF Special(f, bits) THEN u = T_Inf
            ELSE IF IsZero(f, bits) THEN u = <<48>>
            ELSE /\ WellFormed(u)
                 /\ \E d \in {Read(Mantissa(u), 1, "0")}, k \in {TenExp(u) - Places(Mantissa(u))} :
                      /\ d # "0" /\ Reads(f, bits, d, k)
                      /\ \E sh \in {Shorten(f, bits, d, k)} : \E n \in {NumDigits(sh[1])} : \E x \in {n - 1 + sh[2]} :
                           /\ Len(u) = Width(n, x)
                           /\ (Find(u, 101) # 0) = (WithExp(n, x) < Plain(n, x))
                      /\ \E m \in {BMul("2", Mant(f, bits))}, y \in {Expo(f, bits) - 1} :   \* nearest: d - 1/2 <= value <= d + 1/2
                           /\ Cmp(BSub(BMul(d, "10"), "5"), k - 1, m, y) <= 0 \/ ~Reads(f, bits, BSub(d, "1"), k)
                           /\ Cmp(BAdd(BMul(d, "10"), "5"), k - 1, m, y) >= 0 \/ ~Reads(f, bits, BAdd(d, "1"), k)
\* several numbers in a row, in brackets with ", " between
RECURSIVE Row(_, _, _)
Row(f, bs, t) == IF Len(bs) = 1 THEN IsText(f, bs[1], t)
                 ELSE \E c \in {Find(t, 44)} : /\ c # 0 /\ c < Len(t) /\ t[c + 1] = 32
                                               /\ IsText(f, bs[1], SubSeq(t, 1, c - 1)) /\ Row(f, Tail(bs), SubSeq(t, c + 2, Len(t)))
IsList(f, bs, t) == /\ Len(t) >= 2 /\ t[1] = 91 /\ t[Len(t)] = 93
                    /\ IF bs = <<>> THEN Len(t) = 2 ELSE Row(f, bs, SubSeq(t, 2, Len(t) - 1))
=============================================================================
