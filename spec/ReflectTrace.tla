---------------------------- MODULE ReflectTrace ----------------------------
EXTENDS Reflect, TraceKit
VARIABLES s, i, ty, val
tvars == <<s, i, ty, val>>
\* comma separated identifiers, blanks around them, each given NUL terminated
RECURSIVE LTrim(_), RTrim(_)
LTrim(t) == IF t # <<>> /\ t[1] <= 32 THEN LTrim(Tail(t)) ELSE t
RTrim(t) == IF t # <<>> /\ t[Len(t)] <= 32 THEN RTrim(SubSeq(t, 1, Len(t) - 1)) ELSE t
Idents(t, n) == LET k == {j \in 1..Len(t) : t[j] = 44}
                    At(j) == IF j = 0 THEN 0 ELSE IF j > Cardinality(k) THEN Len(t) + 1 ELSE CHOOSE x \in k : Cardinality({y \in k : y <= x}) = j
                IN [j \in 1..n |-> RTrim(LTrim(SubSeq(t, At(j - 1) + 1, At(j) - 1)))]
Named(n, es) == IF n = <<>> THEN es ELSE <<Name(n)>> \o es
Step(e) ==
    CASE e[1] = "bind" -> ty' = e[2] /\ val' = e[3]
      \* name the item was visited under (empty: none), events
      [] e[1] = "write" -> e[3] = Named(e[2], Visit(ty, val)) /\ UNCHANGED <<ty, val>>
      \* events with what was stored, value afterwards
      [] e[1] = "read" -> Reads(ty, val, e[2], e[3]) /\ val' = e[3] /\ ty' = ty
      [] e[1] = "names" -> e[4] = Idents(e[3], e[2]) /\ UNCHANGED <<ty, val>>
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ ty = <<>> /\ val = <<>>
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
