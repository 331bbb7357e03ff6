------------------------------- MODULE EnumMC --------------------------------
(* Every text a compiler may show for a constant of an enum nested in scopes: named scopes, anonymous namespaces and
   functions ("x::", "(a)::", "f()::"), an enum's own name if it is a scoped one; an enumerator's name, or a cast
   "(scopes E)number" without one.  Cut gives the name or ???.  The split over the values looks at each exactly once. *)
EXTENDS Enum, TLC
CONSTANTS MaxScopes, Top
VARIABLES scopes, last
Colon == <<58, 58>>
Scope == {<<120>> \o Colon, <<95>> \o Colon, <<40, 97, 41>> \o Colon, <<102, 40, 41>> \o Colon, <<83, 60, 51, 62>> \o Colon, <<83, 60, 45, 49, 62>> \o Colon}
Names == {<<97>>, <<95, 49>>, <<97, 49>>}
Numbers == {<<48>>, <<49, 50>>, <<45, 49>>}
Init == scopes = <<>> /\ last = 0
Next == (Len(scopes) < MaxScopes /\ last' = last /\ \E c \in Scope : scopes' = Append(scopes, c))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
CutOK == /\ \A n \in Names : Cut(Flat(scopes) \o n) = n
         /\ \A n \in Numbers : Cut(<<40>> \o Flat(scopes) \o <<69>> \o <<41>> \o n) = Unknown
\* the recursion over [L, H): halves above 64 values, else one by one
RECURSIVE Visits(_, _)
Visits(L, H) == IF H - L > Top \div 4 THEN LET M == L + ((H - L) \div 2) IN Visits(L, M) \o Visits(M, H)
                ELSE IF L < H THEN <<L>> \o Visits(L + 1, H) ELSE <<>>
SplitOK == Visits(0, Top) = [j \in 1..Top |-> j - 1]
=============================================================================
