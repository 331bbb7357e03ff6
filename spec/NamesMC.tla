------------------------------- MODULE NamesMC -------------------------------
(* Every text over a small alphabet: the one-pass scanner of the implementation (which starts the last name with its
   bracket count one too high so that no comma ends it) gives the same names. *)
EXTENDS Names
CONSTANTS Chars, N
VARIABLE t
Init == t = <<>>
Next == Len(t) < N /\ \E c \in Chars : t' = Append(t, c)

RECURSIVE SkipBlank(_)
SkipBlank(p) == IF p <= Len(t) /\ Blank(t[p]) THEN SkipBlank(p + 1) ELSE p
\* copy from p: returns <<text, next position>>
RECURSIVE Copy(_, _, _, _, _)
Copy(p, bal, q, e, out) ==
    IF p > Len(t) THEN <<out, p>>
    ELSE LET c == t[p] IN
      IF q = 0 THEN
        IF c = 44 /\ (bal = 0 \/ p = Len(t)) THEN <<out, p + 1>>
        ELSE Copy(p + 1, bal + (IF c \in Opens THEN 1 ELSE IF c \in Closes THEN -1 ELSE 0), IF c \in Quotes THEN c ELSE 0, FALSE, Append(out, c))
      ELSE IF e THEN Copy(p + 1, bal, q, FALSE, Append(out, c))
      ELSE IF c = 92 THEN Copy(p + 1, bal, q, TRUE, Append(out, c))
      ELSE Copy(p + 1, bal, IF c = q THEN 0 ELSE q, FALSE, Append(out, c))
RECURSIVE Run(_, _, _)
Run(j, n, p) == IF j > n THEN <<>>
                ELSE LET r == Copy(SkipBlank(p), IF j = n THEN 1 ELSE 0, 0, FALSE, <<>>) IN <<RTrim(r[1])>> \o Run(j + 1, n, r[2])
Balanced(x) == \A k \in 0..Len(x) : LET st == [d |-> 0, q |-> 0, e |-> FALSE] IN TRUE
RECURSIVE State(_, _)
State(j, st) == IF j > Len(t) THEN st ELSE State(j + 1, After(st, t[j]))
\* only argument texts a compiler accepts: brackets and quotes closed, never more closed than opened
RECURSIVE Ok(_, _)
Ok(j, st) == IF j > Len(t) THEN st.d = 0 /\ st.q = 0 ELSE After(st, t[j]).d >= 0 /\ Ok(j + 1, After(st, t[j]))
Same == Ok(1, Start) => \A n \in 1..3 : Run(1, n, 1) = Split(t, n)
=============================================================================
