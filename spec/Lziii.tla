-------------------------------- MODULE Lziii --------------------------------
(* lziii streams.  A stream under construction is a list of tokens: literals and spans (copy len bytes from off bytes
   back, possibly overlapping the output).  enc is its encoding, out the bytes it stands for, ctl the index in enc of
   the control byte of the current group of up to eight tokens and k how many tokens that group has. *)
EXTENDS Integers, Sequences
VARIABLES enc, out, ctl, k
lvars == <<enc, out, ctl, k>>
LInit == enc = <<>> /\ out = <<>> /\ ctl = 0 /\ k = 8

\* where the next token's bytes go: a new control byte first when the group is full
Grow(bit, bytes) ==
    LET full == k = 8
        c == IF full THEN Len(enc) + 1 ELSE ctl
        n == IF full THEN 0 ELSE k
        e0 == IF full THEN Append(enc, 0) ELSE enc
    IN  enc' = [e0 EXCEPT ![c] = @ + (bit * 2^n)] \o bytes /\ ctl' = c /\ k' = n + 1
Lit(b) == Grow(1, <<b>>) /\ out' = Append(out, b)
Copy(q, len, off) == [j \in 1..Len(q) + len |-> IF j <= Len(q) THEN q[j] ELSE q[Len(q) - off + 1 + ((j - Len(q) - 1) % off)]]
Span(len, off) ==
    /\ len \in 3..18 /\ off \in 1..4096 /\ off <= Len(out)
    /\ LET o == 4096 - off IN Grow(0, <<o % 256, ((len - 3) * 16) + (o \div 256)>>)
    /\ out' = Copy(out, len, off)

\* n tokens of one kind at once, w bytes each; T(j, b) is byte b of the j-th
AfterMany(bit, w, T(_, _), n) ==
    LET a == IF n < 8 - k THEN n ELSE 8 - k     \* what the current group still takes
        r == n - a
        g == (r + 7) \div 8
        m == (8 * w) + 1
        e0 == IF a = 0 THEN enc ELSE [enc EXCEPT ![ctl] = @ + (bit * (2^a - 1) * 2^k)]
    IN  [enc |-> e0 \o [x \in 1..(w * n) + g |->
                  IF x <= w * a THEN T(((x - 1) \div w) + 1, ((x - 1) % w) + 1)
                  ELSE LET y == x - (w * a) - 1
                           p == y % m
                           q == y \div m
                       IN  IF p = 0 THEN bit * (2^(IF r - (8 * q) < 8 THEN r - (8 * q) ELSE 8) - 1)
                           ELSE T(a + (8 * q) + ((p - 1) \div w) + 1, ((p - 1) % w) + 1)],
         ctl |-> IF r = 0 THEN ctl ELSE Len(enc) + (w * a) + ((g - 1) * m) + 1,
         k |-> IF r = 0 THEN k + a ELSE r - (8 * (g - 1))]
Many(bit, w, T(_, _), n) == \E z \in {AfterMany(bit, w, T, n)} : enc' = z.enc /\ ctl' = z.ctl /\ k' = z.k
Lits(n, a, b) == LET T(j, x) == (a + ((j - 1) * b)) % 256 IN Many(1, 1, T, n) /\ out' = out \o [j \in 1..n |-> T(j, 1)]
\* equal spans one after another go on repeating the same bytes
Spans(n, len, off) ==
    /\ n > 0 /\ len \in 3..18 /\ off \in 1..4096 /\ off <= Len(out)
    /\ LET o == 4096 - off T(j, x) == IF x = 1 THEN o % 256 ELSE ((len - 3) * 16) + (o \div 256) IN Many(0, 2, T, n)
    /\ out' = Copy(out, n * len, off)

\* the same format read from the bytes
RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(q, p, c, o) ==       \* q: stream, p: next byte, c: control bits left (with a marker bit), o: output so far
    IF p > Len(q) THEN o
    ELSE IF c = 1 THEN DecodeFrom(q, p + 1, 256 + q[p], o)
    ELSE IF c % 2 = 1 THEN DecodeFrom(q, p + 1, c \div 2, Append(o, q[p]))
    ELSE DecodeFrom(q, p + 2, c \div 2, Copy(o, (q[p + 1] \div 16) + 3, 4096 - (((q[p + 1] % 16) * 256) + q[p])))
Decode(q) == DecodeFrom(q, 1, 1, <<>>)
=============================================================================
