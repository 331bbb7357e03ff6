------------------------------ MODULE EnumTrace ------------------------------
EXTENDS Enum, TraceKit
VARIABLES s, i, en
tvars == <<s, i, en>>
\* values whose name is not settled by the statement: enumerators outside 0..255
Settled(v) == ~\E j \in 1..Len(en) : en[j][1] = v /\ j \notin Known(en)
SettledText(t) == ~\E j \in 1..Len(en) : en[j][2] = t /\ j \notin Known(en)
Step(e) == CASE e[1] = "enum" -> en' = e[2]
             \* scopes of a type and its own name; nameof of the type
             [] e[1] = "type" -> en' = en /\ e[3] = Qualified(e[2])
             \* first value, names of it and its successors
             [] e[1] = "nameof" -> en' = en /\ \A j \in 1..Len(e[3]) : LET v == BAdd(e[2], B(j - 1)) IN Settled(v) => e[3][j] = NameOf(en, v)
             [] e[1] = "as" -> en' = en /\ (SettledText(e[2]) => e[4] = AsEnum(en, e[2], e[3]))
             [] e[1] = "as0" -> en' = en /\ (SettledText(e[2]) => e[3] = AsEnum(en, e[2], "0"))
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ en = <<>>
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
