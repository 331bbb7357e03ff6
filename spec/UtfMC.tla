-------------------------------- MODULE UtfMC --------------------------------
(* The arithmetic of the decoder (sums of weighted bytes minus one constant, no masks) on every code point. *)
EXTENDS Integers, Sequences
CONSTANT Stride
VARIABLE c
O == INSTANCE OsFile WITH Windows <- TRUE, Files <- <<>>, H <- <<>>, V <- <<>>
Unit(n) == n % 65536
Decode(s) ==
    IF s[1] < 128 THEN <<s[1]>>
    ELSE IF s[1] < 224 THEN <<Unit(s[1] * 64 + s[2] - 192 * 64 - 128)>>
    ELSE IF s[1] < 240 THEN <<Unit(s[1] * 4096 + s[2] * 64 + s[3] - 128 * 64 - 128)>>
    ELSE <<Unit(55296 - 62024 + s[1] * 256 + s[2] * 4 + (s[3] \div 16)), Unit(56320 - 128 + (s[3] % 16) * 64 + s[4])>>
Corner == UNION {{b - 1, b, b + 1} : b \in {64, 128, 192, 2048, 4096, 55294, 57345, 65536, 66560, 131072, 262144, 1048576, 1114110}}
Init == c \in (0..(1114111 \div Stride)) \cup Corner
Next == UNCHANGED c
Code(n) == n * Stride
Same(n) == Decode(O!Utf8(n)) = O!Utf16(n)
Right == /\ (c * Stride <= 1114111 /\ ~(c * Stride >= 55296 /\ c * Stride <= 57343) => Same(c * Stride))
         /\ (c \in Corner => Same(c))
Units == c \in Corner => \A j \in 1..Len(O!Utf16(c)) : O!Utf16(c)[j] \in 0..65535
=============================================================================
