------------------------------ MODULE MemTrace ------------------------------
(* The executions the driver's memory machine produced are executions of Mem: one session per execution, every
   primitive <<kind, thread, location, order, message index, value>> ("r" read, "w" write, "u" update, "f" fence). *)
EXTENDS Mem, TraceKit
VARIABLES s, i, M
Locs == 1..6
Thr == 1..4
Step(e) ==
    LET t == e[2] l == e[3] o == e[4] k == e[5] v == e[6] IN
    CASE e[1] = "r" -> k \in Readable(M, t, l, o) /\ (k = 1 \/ M.h[l][k].val = v) /\ M' = Read(M, t, l, k, o)
      [] e[1] = "w" -> M' = Write(M, t, l, v, o, Bottom(Locs)) /\ k = Last(M', l)
      [] e[1] = "u" -> M' = Rmw(M, t, l, v, o) /\ k = Last(M', l)
      [] e[1] = "f" -> M' = Fence(M, t, o)
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ M = MemInit(Locs, Thr, [l \in Locs |-> "init"])
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED <<s, i, M>>
=============================================================================
