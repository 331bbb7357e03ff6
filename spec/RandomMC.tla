------------------------------- MODULE RandomMC -------------------------------
(* Bounded draws at word width W, every n and every word: the accepted words split evenly over [0, n), the one-word
   draw stays below n, and the loop (first test p < n, then the exact threshold) accepts exactly Accept. *)
EXTENDS Integers, FiniteSets
CONSTANT W
VARIABLES n
R == 2^W
Init == n \in 1..R - 1
Next == UNCHANGED n
Value(w) == (n * w) \div R
Low(w) == (n * w) % R
Accept(w) == R % n <= Low(w)
Loop(w) == IF Low(w) < n THEN ~(Low(w) < ((R - n) % n)) ELSE TRUE
InRange == \A w \in 0..R - 1 : Value(w) < n
Same == \A w \in 0..R - 1 : Loop(w) <=> Accept(w)
Even == \A v \in 0..n - 1 : Cardinality({w \in 0..R - 1 : Value(w) = v /\ Accept(w)}) = R \div n
=============================================================================
