------------------------------- MODULE FixedMC -------------------------------
(* The digit generation behind to_text, as design: n is scaled once by a rounded-up fixed point constant and every two
   further digits come out of the fraction by a multiplication by 100.  Sampled at every two-digit boundary (the only
   places where a carry can go wrong) for numbers of up to 9 digits. *)
EXTENDS Text
CONSTANT K                \* number of digits: 10^(K-1) <= n < 10^K
VARIABLES j, d            \* block of 100 numbers, which end of it
F == 40                   \* fraction bits
Init == j \in 0..999 /\ d \in {0, 1}
Next == UNCHANGED <<j, d>>
Pow10(k) == CASE k = 3 -> 1000 [] k = 5 -> 100000 [] k = 7 -> 10000000
\* n just below / at a multiple of a power of 100 inside the K digit range
Num == LET lo == Pow10(K) \div 10
           m == lo + (j * ((Pow10(K) - lo) \div 1000))
           b == (m \div 100) * 100
       IN IF d = 0 THEN (IF b < lo THEN lo ELSE b) ELSE b + 99
Scale == Pow10(K) \div 10            \* one leading digit, then pairs
Fix == BAdd(BDiv(BMul(ToString(Num), BPow2(F)), ToString(Scale)), "1")
RECURSIVE Pairs(_, _)
Pairs(x, k) == IF k = 0 THEN <<>>
               ELSE LET y == BMul(BTrunc(x, F), "100") p == BInt(BShr(y, F)) IN <<48 + (p \div 10), 48 + (p % 10)>> \o Pairs(y, k - 1)
Out == <<48 + BInt(BShr(Fix, F))>> \o Pairs(Fix, (K - 1) \div 2)
Exact == Out = Dec(ToString(Num))
=============================================================================
