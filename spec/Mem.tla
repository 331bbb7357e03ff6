-------------------------------- MODULE Mem ---------------------------------
(* The memory the implementation runs on: C++ atomics with memory orders, as a machine.  Every location keeps the
   messages written to it, in modification order; a thread's view says how much of each location it has seen, and it may
   read any message not older than that.  Releasing writes carry the writer's view and acquiring reads take it over;
   sequentially consistent accesses also respect `sc`, the last sequentially consistent write to each location.
   Read-modify-writes take the newest message and pass on the view of the message they replace (release sequences).
   orders: "rlx" "acq" "rel" "ar" "sc"  *)
EXTENDS Integers, Sequences, FiniteSets
Acq(o) == o \in {"acq", "ar", "sc"}
Rel(o) == o \in {"rel", "ar", "sc"}
Join(a, b) == [l \in DOMAIN a |-> IF a[l] >= b[l] THEN a[l] ELSE b[l]]
Bottom(L) == [l \in L |-> 1]
MemInit(L, T, init) == [h |-> [l \in L |-> <<[val |-> init[l], view |-> Bottom(L)]>>],
                        cur |-> [t \in T |-> Bottom(L)], acq |-> [t \in T |-> Bottom(L)], rel |-> [t \in T |-> Bottom(L)], sc |-> Bottom(L)]
Last(M, l) == Len(M.h[l])
Readable(M, t, l, o) == {k \in 1..Last(M, l) : k >= M.cur[t][l] /\ (o = "sc" => k >= M.sc[l])}
\* thread t reads message k of l
Read(M, t, l, k, o) ==
    LET w == M.h[l][k].view c == [M.cur[t] EXCEPT ![l] = IF k > @ THEN k ELSE @] IN
    [M EXCEPT !.cur[t] = IF Acq(o) THEN Join(c, w) ELSE c, !.acq[t] = Join(@, w)]
\* thread t appends v to l; base: the view the new message passes on in any case
Write(M, t, l, v, o, base) ==
    LET k == Last(M, l) + 1 c == [M.cur[t] EXCEPT ![l] = k]
        w == Join(base, IF Rel(o) THEN c ELSE [M.rel[t] EXCEPT ![l] = k]) IN
    [M EXCEPT !.cur[t] = c, !.h[l] = Append(@, [val |-> v, view |-> w]), !.sc = IF o = "sc" THEN [@ EXCEPT ![l] = k] ELSE @]
Rmw(M, t, l, v, o) == LET k == Last(M, l) w == M.h[l][k].view IN Write(Read(M, t, l, k, o), t, l, v, o, w)
Fence(M, t, o) ==
    LET c1 == IF Acq(o) THEN Join(M.cur[t], M.acq[t]) ELSE M.cur[t]
        c2 == IF o = "sc" THEN Join(c1, M.sc) ELSE c1 IN
    [M EXCEPT !.cur[t] = c2, !.rel[t] = IF Rel(o) THEN c2 ELSE @, !.sc = IF o = "sc" THEN Join(@, c2) ELSE @]
=============================================================================
