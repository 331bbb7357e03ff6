----------------------------- MODULE ConcTrace ------------------------------
(* <<"prog", threads, init>> then every outcome the real header produced on the memory machine: <<"out", results, final>>,
   and <<"done", outcomes, executions, cut short, exhaustive>>.  The logged executions <<"mem", primitives>> are checked
   against Mem by MemTrace. *)
EXTENDS Conc, TraceKit
VARIABLES s, i, allowed
Step(e) ==
    CASE e[1] = "prog" -> allowed' = Outcomes(e[2], e[3])
      [] e[1] = "mem"  -> UNCHANGED allowed
      [] e[1] = "out"  -> UNCHANGED allowed /\ <<e[2], e[3]>> \in allowed
      [] e[1] = "done" -> UNCHANGED allowed /\ e[2] > 0
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ allowed = {}
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED <<s, i, allowed>>
=============================================================================
