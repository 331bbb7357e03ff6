-------------------------------- MODULE TypesMC --------------------------------
(* Laws of the type tools over every type of up to N layers. *)
EXTENDS Types
CONSTANT N
VARIABLE t
Layers(k) == {<<n, c, v>> : n \in k, c \in BOOLEAN, v \in BOOLEAN}
Base == {<<l>> : l \in Layers({"int", "S17"})}
Refs == {<<"l", FALSE, FALSE>>, <<"r", FALSE, FALSE>>}
Init == t \in Base
Next == /\ Len(t) < N /\ ~IsRef(t)
        /\ \E l \in Layers({"p"}) \cup Refs : t' = Append(t, l)
Ops == {"identity", "remove_reference", "remove_const", "remove_volatile", "remove_cv", "remove_cvref", "remove_pointer", "best_pass_by_value"}
Idempotent == \A op \in Ops \ {"remove_pointer"} : Transform(op, Transform(op, t)) = Transform(op, t)
Compose == /\ RemoveCv(t) = RemoveConst(RemoveVolatile(t)) /\ RemoveCv(t) = RemoveVolatile(RemoveConst(t))
           /\ RemoveCvRef(t) = RemoveCv(RemoveRef(t)) /\ ~IsRef(RemoveCvRef(t))
           /\ (IsRef(t) => RemoveCv(t) = t /\ RemovePtr(t) = t)
           /\ (IsPtr(t) => RemovePtr(RemoveCv(t)) = RemovePtr(t))
           /\ (\/ BestPass(t) = t \/ BestPass(t) = Append(Cv(t, TRUE, Top(t)[3]), <<"l", FALSE, FALSE>>) \/ (IsRef(t) /\ BestPass(t) = AddLref(t)))
Lists == \A op \in Ops : LET u == Transform(op, t) IN /\ AreSame(<<t, u>>) = (t = u) /\ Has(<<t, u>>) = (t = u) /\ Has(<<t, u, t>>)
                                                      /\ AreSame(<<t>>) /\ ~Has(<<t>>)
Inv == Idempotent /\ Compose /\ Lists
=============================================================================
