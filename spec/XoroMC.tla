------------------------------- MODULE XoroMC -------------------------------
(* The xoroshiro state map at small width: invertible, so a live state never reaches the all zero one (its only
   preimage is itself). *)
EXTENDS Integers, Bitwise, FiniteSets
CONSTANTS W, A, S, C     \* width, rotation, shift, rotation
VARIABLES a, b
R == 2^W
Rot(x, k) == ((x * 2^k) % R) + (x \div 2^(W - k))
Init == a \in 0..R - 1 /\ b \in 0..R - 1 /\ (a # 0 \/ b # 0)
Next == LET x == a ^^ b IN a' = (Rot(a, A) ^^ x) ^^ ((x * 2^S) % R) /\ b' = Rot(x, C)
Alive == a # 0 \/ b # 0
=============================================================================
