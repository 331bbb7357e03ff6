--------------------------------- MODULE Big ---------------------------------
(* Unbounded integers.  TLC's own integers are 32 bit, so large numbers travel through traces and models as decimal
   strings.  The definitions below give the meaning over Int; TLC evaluates them with java.math.BigInteger through
   spec/java/Big.java (module override), and BigTest.tla checks the override against TLC's own arithmetic. *)
EXTENDS Integers, Sequences, TLC

Val(s) == CHOOSE n \in Int : ToString(n) = s
B(n) == ToString(n)
BAdd(a, b) == B(Val(a) + Val(b))
BSub(a, b) == B(Val(a) - Val(b))
BMul(a, b) == B(Val(a) * Val(b))
BDiv(a, b) == B(Val(a) \div Val(b))          \* floor, b > 0
BMod(a, b) == B(Val(a) % Val(b))             \* 0 <= r < b
BQuo(a, b) == LET m == Val(a) n == Val(b) q == (IF m < 0 THEN -m ELSE m) \div (IF n < 0 THEN -n ELSE n)
              IN B(IF (m < 0) # (n < 0) THEN -q ELSE q)   \* truncated towards zero
BNeg(a) == B(-Val(a))
BLt(a, b) == Val(a) < Val(b)
BLe(a, b) == Val(a) <= Val(b)
BSgn(a) == IF Val(a) > 0 THEN 1 ELSE IF Val(a) < 0 THEN -1 ELSE 0
BPow2(k) == B(2^k)
BInt(a) == Val(a)                            \* only for values that fit TLC's integers
\* bits of natural numbers
RECURSIVE XorN(_, _)
XorN(m, n) == IF m = 0 /\ n = 0 THEN 0 ELSE (((m % 2) + (n % 2)) % 2) + 2 * XorN(m \div 2, n \div 2)
RECURSIVE AndN(_, _)
AndN(m, n) == IF m = 0 \/ n = 0 THEN 0 ELSE (m % 2) * (n % 2) + 2 * AndN(m \div 2, n \div 2)
BXor(a, b) == B(XorN(Val(a), Val(b)))
BAnd(a, b) == B(AndN(Val(a), Val(b)))
BOr(a, b) == B(XorN(XorN(Val(a), Val(b)), AndN(Val(a), Val(b))))
BShl(a, k) == B(Val(a) * 2^k)
BShr(a, k) == B(Val(a) \div 2^k)
BTrunc(a, k) == B(Val(a) % 2^k)              \* low k bits (two's complement for negatives)
\* the k bit two's complement reading of a natural number
BSigned(a, k) == LET m == Val(a) % 2^k IN B(IF m >= 2^(k - 1) THEN m - 2^k ELSE m)
\* little endian bytes
RECURSIVE LE(_)
LE(q) == IF q = <<>> THEN 0 ELSE q[1] + 256 * LE(Tail(q))
BLE(q) == B(LE(q))
BBytes(a, n) == [j \in 1..n |-> (Val(a) \div 256^(j - 1)) % 256]
=============================================================================
