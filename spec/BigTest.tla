------------------------------- MODULE BigTest -------------------------------
(* the override agrees with TLC's own integers where those suffice, and satisfies the ring/bit laws beyond *)
EXTENDS Integers, Sequences, TLC, Big
VARIABLE x
S == {-1000, -257, -17, -3, -1, 0, 1, 2, 7, 16, 255, 256, 1000, 32767}
Nn == {n \in S : n >= 0}
\* the definitions of Big.tla, evaluated by TLC itself
RECURSIVE Xr(_, _)
Xr(m, n) == IF m = 0 /\ n = 0 THEN 0 ELSE (((m % 2) + (n % 2)) % 2) + 2 * Xr(m \div 2, n \div 2)
RECURSIVE An(_, _)
An(m, n) == IF m = 0 \/ n = 0 THEN 0 ELSE (m % 2) * (n % 2) + 2 * An(m \div 2, n \div 2)
ASSUME \A a, b \in S : /\ BAdd(B(a), B(b)) = ToString(a + b) /\ BSub(B(a), B(b)) = ToString(a - b) /\ BMul(B(a), B(b)) = ToString(a * b)
                       /\ BLt(B(a), B(b)) = (a < b) /\ BLe(B(a), B(b)) = (a <= b) /\ BNeg(B(a)) = ToString(-a) /\ BInt(B(a)) = a
ASSUME \A a \in S, b \in {n \in S : n > 0} : BDiv(B(a), B(b)) = ToString(a \div b) /\ BMod(B(a), B(b)) = ToString(a % b)
ASSUME \A a \in Nn, b \in {n \in S : n > 0} : BQuo(B(a), B(b)) = ToString(a \div b) /\ BQuo(B(-a), B(b)) = ToString(-(a \div b)) /\ BQuo(B(a), B(-b)) = ToString(-(a \div b))
ASSUME \A a, b \in Nn : BXor(B(a), B(b)) = ToString(Xr(a, b)) /\ BAnd(B(a), B(b)) = ToString(An(a, b)) /\ BOr(B(a), B(b)) = ToString(Xr(Xr(a, b), An(a, b)))
ASSUME \A a \in Nn, k \in 0..8 : BShl(B(a), k) = ToString(a * 2^k) /\ BShr(B(a), k) = ToString(a \div 2^k)
ASSUME \A a \in S, k \in 1..12 : BTrunc(B(a), k) = ToString(a % 2^k) /\ BSigned(B(a), k) = ToString(LET m == a % 2^k IN IF m >= 2^(k - 1) THEN m - 2^k ELSE m)
ASSUME BLE(<<1, 2, 3>>) = "197121" /\ BLE(<<>>) = "0" /\ BLE(<<255, 255, 255, 255>>) = "4294967295" /\ BBytes("4294967041", 4) = <<1, 255, 255, 255>>
ASSUME BPow2(64) = "18446744073709551616" /\ BMul("4294967296", "4294967296") = BPow2(64) /\ BSigned("18446744073709551615", 64) = "-1"
Big1 == "123456789012345678901234567890" Big2 == "987654321098765432109876543210987"
ASSUME /\ BSub(BAdd(Big1, Big2), Big2) = Big1 /\ BDiv(BMul(Big1, Big2), Big2) = Big1 /\ BXor(BXor(Big1, Big2), Big2) = Big1
       /\ BAdd(BAnd(Big1, Big2), BOr(Big1, Big2)) = BAdd(Big1, Big2) /\ BLE(BBytes(Big1, 20)) = Big1
       /\ BAdd(BShl(BShr(Big1, 40), 40), BTrunc(Big1, 40)) = Big1
Init == x = 0
Next == x' = x
=============================================================================
