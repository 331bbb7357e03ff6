------------------------------ MODULE FloatTextMC ------------------------------
(* Every number of a small format against every short decimal: a decimal reads back to exactly one number, dropping digits one
   at a time finds the least number of digits there is, every number has a text, and different numbers have different ones. *)
EXTENDS FloatText
CONSTANTS P, W, KLo, KHi, DMax
VARIABLE b
KLoDef == -4
F == <<P, W>>
All == {ToString(n) : n \in 1..(2^(P - 1 + W) - 1)}
Finite == {n \in All : ~Special(F, n)}
Init == b \in Finite
Next == UNCHANGED b
Pairs == {<<d, k>> \in (1..DMax) \X (KLo..KHi) : d % 10 # 0}
\* value order: neighbours by bits
Mine == {q \in Pairs : Reads(F, b, ToString(q[1]), q[2])}
\* no decimal reads back to two numbers; every one strictly between two numbers reads back to one of them
Disjoint == LET nx == BAdd(b, "1")
            IN nx \in Finite => /\ \A q \in Mine : ~Reads(F, nx, ToString(q[1]), q[2])
                                /\ \A q \in Pairs : (Cmp(ToString(q[1]), q[2], Mant(F, b), Expo(F, b)) >= 0 /\ Cmp(ToString(q[1]), q[2], Mant(F, nx), Expo(F, nx)) <= 0)
                                                    => (q \in Mine \/ Reads(F, nx, ToString(q[1]), q[2]))
\* the number itself reads back to itself
Own == Cmp("1", 0, "1", 0) = 0 /\ (\A q \in Pairs : Cmp(ToString(q[1]), q[2], Mant(F, b), Expo(F, b)) = 0 => q \in Mine)
Least == \A q \in Mine : NumDigits(Shorten(F, b, ToString(q[1]), q[2])[1]) = (LET ls == {NumDigits(ToString(r[1])) : r \in Mine} IN CHOOSE l \in ls : \A m \in ls : l <= m)
\* the texts of the shortest digits: characters
Dig(d) == IF d < 10 THEN <<48 + d>> ELSE IF d < 100 THEN <<48 + (d \div 10), 48 + (d % 10)>> ELSE <<48 + (d \div 100), 48 + ((d \div 10) % 10), 48 + (d % 10)>>
Rep(n) == [j \in 1..n |-> 48]
TPlain(d, k) == LET s == Dig(d) n == Len(s) IN
    IF k >= 0 THEN s \o Rep(k) ELSE IF n + k > 0 THEN SubSeq(s, 1, n + k) \o <<46>> \o SubSeq(s, n + k + 1, n) ELSE <<48, 46>> \o Rep(-(n + k)) \o s
TExp(d, k) == LET s == Dig(d) n == Len(s) x == n - 1 + k a == IF x < 0 THEN -x ELSE x
              IN <<s[1]>> \o (IF n > 1 THEN <<46>> \o Tail(s) ELSE <<>>) \o <<101, IF x < 0 THEN 45 ELSE 43, 48 + (a \div 10), 48 + (a % 10)>>
Texts == {TPlain(q[1], q[2]) : q \in Mine} \cup {TExp(q[1], q[2]) : q \in Mine}
Widths == \A q \in Mine : LET n == NumDigits(ToString(q[1])) x == n - 1 + q[2] IN Len(TPlain(q[1], q[2])) = Plain(n, x) /\ Len(TExp(q[1], q[2])) = WithExp(n, x)
Good == {t \in Texts : IsText(F, b, t)}
Exists == Good # {} /\ \A t \in Good, u \in Texts : Len(t) <= Len(u)
Injective == LET nx == BAdd(b, "1") IN nx \in Finite => \A t \in Good : ~IsText(F, nx, t)
Inv == Disjoint /\ Own /\ Least /\ Widths /\ Exists /\ Injective
=============================================================================
