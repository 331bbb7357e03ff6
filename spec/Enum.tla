-------------------------------- MODULE Enum ---------------------------------
(* Names of enumerators.  en: sequence of <<value, name>> (values as decimal strings, names as bytes), no value or name twice. *)
EXTENDS Integers, Sequences, FiniteSets, Big
Unknown == <<63, 63, 63>>
Known(en) == {j \in 1..Len(en) : BLe("0", en[j][1]) /\ BLe(en[j][1], "255")}
NameOf(en, v) == LET k == {j \in Known(en) : en[j][1] = v} IN IF k = {} THEN Unknown ELSE en[CHOOSE j \in k : TRUE][2]
AsEnum(en, t, fallback) == LET k == {j \in Known(en) : en[j][2] = t} IN IF k = {} THEN fallback ELSE en[CHOOSE j \in k : TRUE][1]
\* a type is named with the scopes it is declared in
RECURSIVE Qualified(_)
Qualified(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<58, 58>> \o Qualified(Tail(p))
\* --- how a name is cut out of the text a compiler shows for a constant: scopes, or a cast of a number
Text(scopes, name) == scopes \o name
RECURSIVE LastOf(_, _, _)
LastOf(t, c, j) == IF j = 0 THEN 0 ELSE IF t[j] = c THEN j ELSE LastOf(t, c, j - 1)
AfterLast(t, c) == SubSeq(t, LastOf(t, c, Len(t)) + 1, Len(t))
IsNumber(t) == LET x == AfterLast(t, 41) IN x # <<>> /\ (x[1] = 45 \/ x[1] \in 48..57)
Cut(t) == IF IsNumber(t) THEN Unknown ELSE AfterLast(t, 58)
=============================================================================
