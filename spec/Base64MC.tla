------------------------------ MODULE Base64MC ------------------------------
(* All byte strings over corner values: the index arithmetic of the decoder inverts the text, and the size formula is
   the length (also for texts of any length, 4k+1 included, where it must not exceed what the text can hold). *)
EXTENDS Base64
CONSTANTS Bytes, N
VARIABLE q
Init == q = <<>>
Next == Len(q) < N /\ \E b \in Bytes : q' = Append(q, b)
Size(n) == ((n \div 4) * 3) + (((n % 4) * 3) \div 4)
Dec(t, i) == \* byte i (from 0) by the decoder's index arithmetic
    LET a == DigitVal(t[((i * 4) \div 3) + 1])
        b == DigitVal(t[((i * 4) \div 3) + 2])
        n == ((i % 3) * 2) + 2
    IN ((a * 2^n) % 256) + (b \div 2^(6 - n))
Exact == LET t == Text(q) IN Size(Len(t)) = Len(q) /\ \A i \in 0..Len(q) - 1 : Dec(t, i) = q[i + 1]
=============================================================================
