------------------------------ MODULE CordicMC ------------------------------
(* The shift-and-add algorithm at small width: F fraction bits of the coordinates, FZ of the angle, N steps.
   mode 1 turns <<r, 0>> by every angle, mode 2 finds length and direction of every vector. *)
EXTENDS Cordic
CONSTANTS RB, F, FZ, N, R
VARIABLES mode, a, b, x, y, z, i
vars == <<mode, a, b, x, y, z, i>>
Ks == [j \in 0..N - 1 |-> BInt(BDiv(BAdd(BMul(IF j = 0 THEN BDiv(Pi, "4") ELSE Atan(BPow2(j)), BPow2(RB + FZ - 1)), BShr(Pi, 1)), Pi))]
RECURSIVE Gain2(_)     \* (product of cos^2) * 2^(2F)
Gain2(j) == IF j = N THEN BPow2(2 * F) ELSE BDiv(BMul(Gain2(j + 1), BPow2(2 * j)), BAdd(BPow2(2 * j), "1"))
K == CHOOSE k \in 1..2^F : \E g \in {BInt(Gain2(0))} : k * k <= g /\ (k + 1) * (k + 1) > g
Turn == 2^RB
Quarter == 2^(RB - 2)
Start(m, p, q) ==
    IF m = 1 THEN <<p * K, 0, (q % Quarter) * 2^FZ>>
    ELSE LET u == p * K v == q * K IN
         IF u >= 0 THEN <<u, v, 0>> ELSE <<-u, -v, IF -v < 0 THEN 2^(RB + FZ - 1) ELSE -(2^(RB + FZ - 1))>>
Init == /\ mode \in {1, 2} /\ a \in -R..R /\ i = 0
        /\ b \in IF mode = 1 THEN -Turn..Turn - 1 ELSE -R..R
        /\ \E w \in {Start(mode, a, b)} : x = w[1] /\ y = w[2] /\ z = w[3]
Next == /\ i < N /\ i' = i + 1 /\ UNCHANGED <<mode, a, b>>
        /\ \E s \in {IF mode = 1 THEN (IF z < 0 THEN -1 ELSE 1) ELSE (IF y < 0 THEN 1 ELSE -1)} :
              x' = x - (s * y) \div 2^i /\ y' = y + (s * x) \div 2^i /\ z' = z - s * Ks[i]
Round(n, f) == (n + 2^(f - 1)) \div 2^f
Result == LET u == Round(x, F) v == Round(y, F) q == (b \div Quarter) % 4 IN
          IF mode = 2 THEN <<u, Round(z, FZ)>>
          ELSE IF q = 0 THEN <<u, v>> ELSE IF q = 1 THEN <<-v, u>> ELSE IF q = 2 THEN <<-u, -v>> ELSE <<v, -u>>
Str(v) == <<ToString(v[1]), ToString(v[2])>>
\* the rest angle is never more than the last step can undo
Converges == i > 0 => IF mode = 1 THEN z <= Ks[i - 1] + i /\ -z <= Ks[i - 1] + i
                      ELSE y * 2^(i - 1) <= x + i * 2^i /\ -y * 2^(i - 1) <= x + i * 2^i
Exact == i = N => \E w \in {Str(Result)} :
           IF mode = 1 THEN RotateOK(<<ToString(a), "0">>, ToString(b), RB, w, 1)
           ELSE MagOK(Str(<<a, b>>), w[1], 1) /\ (<<a, b>> # <<0, 0>> => AngleOK(Str(<<a, b>>), w[2], RB, 1))
=============================================================================
