-------------------------------- MODULE SpanMC -------------------------------
EXTENDS Span, Json
CONSTANT Size
VARIABLE op
Counts == (0..Size + 1) \cup {2147483647}
Init == SpInit(Size) /\ op = <<"init">>
Next == \E c \in Counts : \/ Skip(c) /\ op' = <<"skip", c>>
                          \/ Trim(c) /\ op' = <<"trim", c>>
View == <<off, len>>
\* the replay follows the real result for empty windows, so they are one state for the walks
W(o, l) == IF l = 0 THEN "empty" ELSE ToString(<<o, l>>)
Emit == PrintT("@T " \o ToJson([f |-> W(off, len), o |-> op', t |-> W(off', len'), i |-> op = <<"init">>]))
=============================================================================
