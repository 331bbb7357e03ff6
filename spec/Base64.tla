------------------------------- MODULE Base64 -------------------------------
(* RFC 4648 base64 over sequences of bytes / character codes. *)
EXTENDS Integers, Sequences
Alphabet == <<65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,
              97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,
              48,49,50,51,52,53,54,55,56,57,43,47>>
Digit(v) == Alphabet[v + 1]
Chars == {Alphabet[j] : j \in 1..64}
DigitVal(c) == CHOOSE v \in 0..63 : Digit(v) = c
At(q, j) == IF j <= Len(q) THEN q[j] ELSE 0
Group(q, j) == LET v == (At(q, j) * 65536) + (At(q, j + 1) * 256) + At(q, j + 2) IN <<v \div 262144, (v \div 4096) % 64, (v \div 64) % 64, v % 64>>
TextLen(n) == ((n \div 3) * 4) + (IF n % 3 = 0 THEN 0 ELSE (n % 3) + 1)
\* the text without padding
Text(q) == [j \in 1..TextLen(Len(q)) |-> Digit(Group(q, (3 * ((j - 1) \div 4)) + 1)[((j - 1) % 4) + 1])]
PadLen(n) == (3 - (n % 3)) % 3
Padded(q) == Text(q) \o [j \in 1..PadLen(Len(q)) |-> 61]
=============================================================================
