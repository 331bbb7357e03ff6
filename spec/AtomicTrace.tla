---------------------------- MODULE AtomicTrace -----------------------------
(* events: <<"type", kind, bits, signed>>, <<"new", v>>, <<op, operand, returned, value loaded afterwards>>,
           <<"cas", expected, desired, ok, expected afterwards, value loaded afterwards>> *)
EXTENDS Atomic, TraceKit
VARIABLES s, i, v
TY == LET e == Ev(s)[1] IN [k |-> e[2], bits |-> e[3], signed |-> e[4]]
Step(e) ==
    CASE e[1] = "type" -> v' = v
      [] e[1] = "new"  -> v' = e[2] /\ e[3] = v'
      [] e[1] = "cas"  -> LET r == Cas(v, e[2], e[3]) IN v' = r.v /\ e[4] = r.ok /\ e[5] = r.exp /\ e[6] = r.v
      [] OTHER         -> LET r == Apply(TY, e[1], v, e[2]) IN v' = r[1] /\ e[3] = r[2] /\ e[4] = r[1]
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ v = <<>>
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED <<s, i, v>>
=============================================================================
