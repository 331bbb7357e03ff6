-------------------------------- MODULE Names --------------------------------
(* The argument text of a log statement (character codes) split into n names. *)
EXTENDS Integers, Sequences, FiniteSets
Blank(c) == c <= 32
Opens == {40, 91, 123}
Closes == {41, 93, 125}
Quotes == {34, 39}
\* scanner state before every position: depth of brackets, open quote (0: none), after a backslash
Start == [d |-> 0, q |-> 0, e |-> FALSE]
After(st, c) == IF st.q = 0 THEN [d |-> st.d + (IF c \in Opens THEN 1 ELSE IF c \in Closes THEN -1 ELSE 0), q |-> IF c \in Quotes THEN c ELSE 0, e |-> FALSE]
                ELSE IF st.e THEN [st EXCEPT !.e = FALSE]
                ELSE IF c = 92 THEN [st EXCEPT !.e = TRUE]
                ELSE [st EXCEPT !.q = IF c = st.q THEN 0 ELSE st.q]
RECURSIVE Scan(_, _, _, _)
Scan(t, j, st, acc) == IF j > Len(t) THEN acc
                       ELSE Scan(t, j + 1, After(st, t[j]), IF t[j] = 44 /\ st.d = 0 /\ st.q = 0 THEN Append(acc, j) ELSE acc)
Commas(t) == Scan(t, 1, Start, <<>>)        \* positions of the separating commas, ascending
RECURSIVE LTrim(_), RTrim(_)
LTrim(t) == IF t # <<>> /\ Blank(t[1]) THEN LTrim(Tail(t)) ELSE t
RTrim(t) == IF t # <<>> /\ Blank(t[Len(t)]) THEN RTrim(SubSeq(t, 1, Len(t) - 1)) ELSE t
Trim(t) == RTrim(LTrim(t))
\* a comma that ends the text separates nothing (an empty argument list)
EndComma(t) == LET k == Commas(t) IN k # <<>> /\ k[Len(k)] = Len(t)
Split(t, n) ==
    LET k == Commas(t)
        Piece(j) == LET a == IF j = 1 THEN 1 ELSE k[j - 1] + 1
                        b == IF j = n THEN (IF EndComma(t) THEN Len(t) - 1 ELSE Len(t)) ELSE IF j <= Len(k) THEN k[j] - 1 ELSE Len(t)
                    IN IF j > Len(k) + 1 THEN <<>> ELSE Trim(SubSeq(t, a, b))
    IN [j \in 1..n |-> Piece(j)]
=============================================================================
