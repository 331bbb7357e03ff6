--------------------------------- MODULE Types ---------------------------------
(* C++ types as layers, innermost first: <<kind, const, volatile>> with kind a base type, "p" pointer, "l" / "r" reference. *)
EXTENDS Integers, Sequences, FiniteSets
Top(t) == t[Len(t)]
Inner(t) == SubSeq(t, 1, Len(t) - 1)
IsRef(t) == Top(t)[1] \in {"l", "r"}
IsPtr(t) == Top(t)[1] = "p"
Cv(t, c, v) == IF IsRef(t) THEN t ELSE [t EXCEPT ![Len(t)] = <<@[1], c, v>>]
RemoveRef(t) == IF IsRef(t) THEN Inner(t) ELSE t
RemoveConst(t) == Cv(t, FALSE, Top(t)[3])
RemoveVolatile(t) == Cv(t, Top(t)[2], FALSE)
RemoveCv(t) == Cv(t, FALSE, FALSE)
RemoveCvRef(t) == RemoveCv(RemoveRef(t))
RemovePtr(t) == IF IsPtr(t) THEN Inner(t) ELSE t
AddConst(t) == IF IsRef(t) THEN t ELSE Cv(t, TRUE, Top(t)[3])
AddLref(t) == IF IsRef(t) THEN Append(Inner(t), <<"l", FALSE, FALSE>>) ELSE Append(t, <<"l", FALSE, FALSE>>)
\* the base types: trivially copyable and no larger than 16 bytes, or not
Small == {"int", "char", "bool", "float", "double", "Enum", "S1", "S16"}
Large == {"S17", "Guarded"}
BestPass(t) == IF ~IsRef(t) /\ (IsPtr(t) \/ Top(t)[1] \in Small) THEN t ELSE AddLref(AddConst(t))
Transform(op, t) ==
    CASE op = "identity" -> t
      [] op = "remove_reference" -> RemoveRef(t)
      [] op = "remove_const" -> RemoveConst(t)
      [] op = "remove_volatile" -> RemoveVolatile(t)
      [] op = "remove_cv" -> RemoveCv(t)
      [] op = "remove_cvref" -> RemoveCvRef(t)
      [] op = "remove_pointer" -> RemovePtr(t)
      [] op = "best_pass_by_value" -> BestPass(t)
AreSame(ts) == ts # <<>> /\ \A j \in 1..Len(ts) : ts[j] = ts[1]
Has(ts) == ts # <<>> /\ \E j \in 2..Len(ts) : ts[j] = ts[1]

\* what a class can be brace initialised with: an aggregate from any first part of its fields, or a copy of itself;
\* another class exactly as one of its usable constructors takes
Makeable(shape, with) ==
    IF shape[1] = "fields"
    THEN with = <<"self">> \/ (Len(with) <= Len(shape[2]) /\ SubSeq(shape[2], 1, Len(with)) = with)
    ELSE \E j \in 1..Len(shape[2]) : shape[2][j] = with
=============================================================================
