------------------------------ MODULE ZOrderMC -------------------------------
(* The query algorithm of zorder.h at reduced size: W bit axes, granules of 2^G codes.  For every box, and every data
   set of up to two codes and the full set, nothing inside the box is missed and the pending stack stays small. *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC
CONSTANTS W, G
VARIABLES x1, y1, x2, y2
Top == 2^(2 * W) - 1
RECURSIVE Sp(_)
Sp(u) == IF u = 0 THEN 0 ELSE (u % 2) + 4 * Sp(u \div 2)
Enc(x, y) == Sp(x) + 2 * Sp(y)
EV == Sp(2^W - 1)
OD == 2 * EV
Gm == 2^G - 1
Inside(lo, hi, z) == /\ (lo & EV) <= (z & EV) /\ (z & EV) <= (hi & EV) /\ (lo & OD) <= (z & OD) /\ (z & OD) <= (hi & OD)
RECURSIVE Smear(_, _)
Smear(m, k) == IF k > 2 * W THEN m ELSE Smear(m | (m \div 2^k), 2 * k)
Split(lo, hi) == LET d == lo ^^ hi dx == d & EV dy == d & OD m == Smear(IF dx < dy THEN dy ELSE dx, 2)
                     jo == ((hi & (Top - m)) | (m \div 4)) ji == ((lo | m) & (Top - (m \div 4)))
                     fo == jo - (jo % 2^G) fi == ji - (ji % 2^G) IN [go |-> fi - fo > 2^G, jo |-> fo, ji |-> fi]
LowerB(q, z) == CHOOSE p \in 1..Len(q) + 1 : (\A j \in 1..p - 1 : q[j] < z) /\ (p <= Len(q) => q[p] >= z)
RECURSIVE Run(_, _, _, _, _, _, _)
RECURSIVE Test(_, _, _, _, _, _, _, _)
RECURSIVE Pop(_, _, _, _, _, _, _, _)
\* position p in q up to last; st is the stack of pending spans; dm the deepest it got
Run(q, p, last, lo, hi, st, r) == IF p >= last THEN r ELSE Pop(q, p + 1, last, lo, hi, st, r, q[p])
Pop(q, p, last, lo, hi, st, r, z) == IF z > hi + Gm THEN (IF st = <<>> THEN r ELSE Pop(q, p, last, st[Len(st)][1], st[Len(st)][2], SubSeq(st, 1, Len(st) - 1), r, z))
                                     ELSE Test(q, p, last, lo, hi, st, r, z)
Test(q, p, last, lo, hi, st, r, z) ==
    IF z < lo THEN Run(q, LowerB(q, lo), last, lo, hi, st, r)
    ELSE LET c == Split(lo, hi) IN
         IF ~c.go THEN Run(q, p, last, lo, hi, st, [r EXCEPT !.out = Append(@, z)])
         ELSE IF z > c.jo + Gm THEN Test(q, p, last, c.ji, hi, st, r, z)
         ELSE LET s2 == Append(st, <<c.ji, hi>>) IN
              Test(q, p, last, lo, c.jo, s2, [r EXCEPT !.dm = IF Len(s2) > @ THEN Len(s2) ELSE @], z)
RunQ(q, lo, hi) == Run(q, 1, IF hi <= Top - Gm THEN LowerB(q, hi + Gm) ELSE Len(q) + 1, lo, hi, <<>>, [out |-> <<>>, dm |-> 0])
Complete(q, lo, hi) == LET r == RunQ(q, lo, hi) IN
    /\ \A j \in 1..Len(q) : Inside(lo, hi, q[j]) => \E k \in 1..Len(r.out) : r.out[k] = q[j]
    /\ \A j \in 1..Len(r.out) - 1 : r.out[j] < r.out[j + 1]
    /\ \A j \in 1..Len(r.out) : r.out[j] <= hi + Gm /\ r.out[j] >= lo - Gm
    /\ r.dm <= 2 * W - G + 1
Init == x1 \in 0..2^W - 1 /\ y1 \in 0..2^W - 1 /\ x2 \in x1..2^W - 1 /\ y2 \in y1..2^W - 1
Next == UNCHANGED <<x1, y1, x2, y2>>
All == [j \in 1..Top + 1 |-> j - 1]
Safe == LET lo == Enc(x1, y1) hi == Enc(x2, y2) IN
        /\ Complete(All, lo, hi)
        /\ \A a \in 0..Top : Complete(<<a>>, lo, hi)
        /\ \A a \in 0..Top : \A b \in {c \in 0..Top : c > a /\ (c - a) % 5 = (lo + hi) % 5} : Complete(<<a, b>>, lo, hi)
\* code algebra: distinct, ordered per axis, grows with both coordinates
EncodeOK == /\ (Enc(x1, y1) & EV) = Sp(x1) /\ (Enc(x1, y1) & OD) = 2 * Sp(y1)
            /\ (x1 < x2) = (Sp(x1) < Sp(x2))
            /\ (<<x1, y1>> # <<x2, y2>>) => Enc(x1, y1) < Enc(x2, y2)
=============================================================================
