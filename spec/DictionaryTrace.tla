--------------------------- MODULE DictionaryTrace ---------------------------
EXTENDS Dictionary, TraceKit
VARIABLES s, i
tvars == <<s, i, nslots, slot, val>>
\* after every event every key of the session's key set is looked up through every access path
Obs(o) == \A j \in 1..Len(o) :
            LET k == o[j][1] IN
            IF k \in DOMAIN slot' THEN o[j] = <<k, slot'[k], val'[k], val'[k], val'[k], val'[k]>> ELSE o[j] = <<k, 0>>
Step(e) == CASE e[1] = "bind" -> Bind(e[2], e[3], e[4]) /\ Obs(e[5])
             [] e[1] = "find" -> Find(e[2], e[3]) /\ Obs(e[4])
             [] e[1] = "put"  -> Put(e[2], e[3]) /\ Obs(e[4])
             \* keys lo .. hi, none bound before, one after the other: the slots given
             [] e[1] = "fill" -> LET lo == e[2] hi == e[3] room == nslots - 1 - Cardinality(Keys)
                                     n == IF hi - lo + 1 < room THEN hi - lo + 1 ELSE room
                                     got == {e[4][j] : j \in 1..n}
                                 IN /\ Len(e[4]) = hi - lo + 1 /\ \A j \in (n + 1)..Len(e[4]) : e[4][j] = 0
                                    /\ Cardinality(got) = n /\ got \subseteq 1..(nslots - 1) /\ got \cap Slots = {}
                                    /\ slot' = [k \in Keys \cup (lo..(lo + n - 1)) |-> IF k \in Keys THEN slot[k] ELSE e[4][k - lo + 1]]
                                    /\ val' = [k \in DOMAIN slot' |-> IF k \in Keys THEN val[k] ELSE (k * 7) % 1000]
                                    /\ UNCHANGED nslots /\ Obs(e[5])
             \* access to what is not bound fails its check, once, every time
             [] e[1] = "miss"  -> UNCHANGED <<nslots, slot, val>> /\ e[3] = (IF e[2] \in Keys THEN <<0, 0>> ELSE <<1, 1>>) /\ Obs(e[4])
             [] e[1] = "missp" -> UNCHANGED <<nslots, slot, val>> /\ e[3] = (IF e[2] \in Slots THEN <<0, 0>> ELSE <<1, 1>>) /\ Obs(e[4])
             \* every slot holds exactly one value all the time
             [] e[1] = "life"  -> UNCHANGED <<nslots, slot, val>> /\ e[2] = nslots /\ e[3] = 0
             \* a dictionary whose first keys were laid out as a search tree: <<key, slot, value>> each
             [] e[1] = "pre"  -> /\ slot' = [k \in {e[2][j][1] : j \in 1..Len(e[2])} |-> LET j == CHOOSE j \in 1..Len(e[2]) : e[2][j][1] = k IN e[2][j][2]]
                                 /\ val' = [k \in DOMAIN slot' |-> LET j == CHOOSE j \in 1..Len(e[2]) : e[2][j][1] = k IN e[2][j][3]]
                                 /\ UNCHANGED nslots /\ Obs(e[3])
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ DInit(Par(s)[2], <<>>, <<>>)
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
