------------------------------ MODULE TypesTrace ------------------------------
EXTENDS Types, TraceKit
VARIABLES s, i
tvars == <<s, i>>
In(c, a, b) == c \in a..b
Upper(c) == In(c, 65, 90)
Lower(c) == In(c, 97, 122)
Dig(c) == In(c, 48, 57)
Step(e) ==
    CASE e[1] = "type"   -> e[4] = Transform(e[2], e[3])
      [] e[1] = "is"     -> e[4] = (CASE e[2] = "ptr" -> IsPtr(RemoveCvRef(e[3])) [] e[2] = "bare_ptr" -> IsPtr(e[3]) /\ ~Top(e[3])[2] /\ ~Top(e[3])[3]
                                       [] e[2] = "enum" -> ~IsRef(e[3]) /\ Top(e[3])[1] = "Enum"
                                       [] e[2] = "small" -> ~IsRef(e[3]) /\ (IsPtr(e[3]) \/ Top(e[3])[1] \in Small))
      [] e[1] = "same"   -> e[3] = AreSame(e[2])
      [] e[1] = "has"    -> e[3] = Has(e[2])
      [] e[1] = "select" -> e[4] = e[3][e[2] + 1]
      [] e[1] = "cond"   -> e[4] = (IF e[2] THEN e[3][1] ELSE e[3][2])
      \* number of types in a list, its first, number in the rest
      [] e[1] = "types"  -> e[3] = Len(e[2]) /\ (e[2] # <<>> => e[4] = e[2][1] /\ e[5] = Len(e[2]) - 1)
      [] e[1] = "sequence" -> e[3] = [j \in 1..e[2] |-> j - 1] /\ e[4] = e[2]
      \* values given, number of items, the items
      [] e[1] = "items"  -> e[3] = Len(e[2]) /\ e[4] = e[2]
      \* fields of an aggregate, by position
      [] e[1] = "get"    -> e[3] = e[2]
      \* the class, what it would be made with, the answer
      [] e[1] = "made"   -> e[4] = Makeable(e[2], e[3])
      [] e[1] = "count"  -> e[3] = e[2]
      [] e[1] = "bits"   -> e[3] = e[2]
      [] e[1] = "pp"     -> e[3] = e[2]
      \* code; base10, base16, base64, alpha, upper, lower
      [] e[1] = "ascii"  -> LET c == e[2] IN e[3] = <<Dig(c), Dig(c) \/ In(c, 65, 70) \/ In(c, 97, 102), Dig(c) \/ Upper(c) \/ Lower(c) \/ c \in {43, 47},
                                                     Upper(c) \/ Lower(c), Upper(c), Lower(c)>>
TInit == s \in 1..Len(Sessions) /\ i = 1
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
