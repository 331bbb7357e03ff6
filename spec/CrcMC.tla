-------------------------------- MODULE CrcMC --------------------------------
(* The table driven slicing forms against the bit serial one, with 4 bit registers, 1 bit bytes' worth of tables
   (2 bit "bytes"): word = register (slice by 2) and word = two registers (slice by 4); every polynomial, register
   and input. *)
EXTENDS Integers, Sequences, Bitwise
VARIABLES P, v, w
Init == P \in 0..15 /\ v \in 0..15 /\ w \in 0..255
Next == UNCHANGED <<P, v, w>>
Bit(x) == IF x % 2 = 1 THEN (x \div 2) ^^ P ELSE x \div 2
RECURSIVE Bits(_, _)
Bits(x, n) == IF n = 0 THEN x ELSE Bits(Bit(x), n - 1)
\* serial over 2 bit bytes, low first
RECURSIVE Serial(_, _, _)
Serial(x, word, n) == IF n = 0 THEN x ELSE Serial(Bits(x ^^ (word % 4), 2), word \div 4, n - 1)
RECURSIVE Table(_, _)
Table(n, j) == IF n = 0 THEN Bits(j, 2) ELSE LET t == Table(n - 1, j) IN (t \div 4) ^^ Bits(t % 4, 2)
One == LET x == v ^^ (w % 16) IN Table(0, x \div 4) ^^ Table(1, x % 4)
Two == LET x == v ^^ (w % 16)
           y == w \div 16
       IN ((Table(0, y \div 4) ^^ Table(1, y % 4)) ^^ Table(2, x \div 4)) ^^ Table(3, x % 4)
Bytewise == (v \div 4) ^^ Table(0, (v % 4) ^^ (w % 4))
Same == One = Serial(v, w % 16, 2) /\ Two = Serial(v, w, 4) /\ Bytewise = Serial(v, w % 4, 1)
=============================================================================
