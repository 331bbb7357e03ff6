------------------------------ MODULE LitmusMC ------------------------------
(* atomic_std.h on the memory machine.  Each thread of a program runs its operations as the header implements them:
   loads, stores and read-modify-writes with the orders Ld/St/Rm, the polyfilled fetch_add/sub ("padd", "psub") as a
   relaxed load followed by a weak compare exchange loop whose exchange may fail spuriously.  Invariant Atomic: with
   sequentially consistent orders the outcome of every program is one that Conc allows.  With weaker orders the
   outcomes Conc forbids are reachable, which is what Weak prints (so the machine can tell the difference). *)
EXTENDS Mem, TLC, Json
CONSTANTS Ld, St, Rm
C == INSTANCE Conc
Progs == <<
  [name |-> "SB",   init |-> <<0, 0>>, prog |-> << <<<<"store", 1, 1>>, <<"load", 2>>>>, <<<<"store", 2, 1>>, <<"load", 1>>>> >>],
  [name |-> "MP",   init |-> <<0, 0>>, prog |-> << <<<<"pw", 1, 7>>, <<"store", 1, 1>>>>, <<<<"load", 1>>, <<"prif", 1, 1>>>> >>],
  [name |-> "MPadd", init |-> <<0, 0>>, prog |-> << <<<<"pw", 1, 7>>, <<"add", 1, 1>>>>, <<<<"cas", 1, 1, 5>>, <<"prif", 1, 1001>>>> >>],
  [name |-> "MPpadd", init |-> <<0, 0>>, prog |-> << <<<<"pw", 1, 7>>, <<"padd", 1, 1>>>>, <<<<"psub", 1, 0>>, <<"prif", 1, 1>>>> >>],
  [name |-> "IRIW", init |-> <<0, 0>>, prog |-> << <<<<"store", 1, 1>>>>, <<<<"store", 2, 1>>>>, <<<<"load", 1>>, <<"load", 2>>>>, <<<<"load", 2>>, <<"load", 1>>>> >>],
  [name |-> "CoRR", init |-> <<0, 0>>, prog |-> << <<<<"store", 1, 1>>>>, <<<<"load", 1>>, <<"load", 1>>>> >>],
  [name |-> "adds", init |-> <<3, 0>>, prog |-> << <<<<"add", 1, 1>>, <<"sub", 1, 2>>>>, <<<<"xor", 1, 6>>, <<"exch", 1, 9>>>> >>],
  [name |-> "padds", init |-> <<3, 0>>, prog |-> << <<<<"padd", 1, 1>>, <<"psub", 1, 2>>>>, <<<<"padd", 1, 5>>, <<"load", 1>>>> >>],
  [name |-> "padd3", init |-> <<0, 0>>, prog |-> << <<<<"padd", 1, 1>>>>, <<<<"padd", 1, 2>>>>, <<<<"psub", 1, 4>>>> >>],
  [name |-> "ABA",  init |-> <<0, 0>>, prog |-> << <<<<"padd", 1, 1>>>>, <<<<"store", 1, 5>>, <<"store", 1, 0>>>> >>],
  [name |-> "cas",  init |-> <<0, 0>>, prog |-> << <<<<"cas", 1, 0, 1>>, <<"load", 2>>>>, <<<<"cas", 1, 0, 2>>, <<"store", 2, 4>>>>, <<<<"cas", 1, 2, 0>>>> >>],
  [name |-> "SBadd", init |-> <<0, 0>>, prog |-> << <<<<"add", 1, 1>>, <<"load", 2>>>>, <<<<"padd", 2, 1>>, <<"load", 1>>>> >>]
>>
Plain(k) == k + 2
Locs == 1..4
\* the abstract program: polyfills are just add and sub
Abs(o) == IF o[1] = "padd" THEN <<"add", o[2], o[3]>> ELSE IF o[1] = "psub" THEN <<"sub", o[2], o[3]>> ELSE o
AbsProg(q) == [t \in DOMAIN q |-> [j \in DOMAIN q[t] |-> Abs(q[t][j])]]
VARIABLES n, M, res, sub   \* program number, memory, results so far, sub[t]: the polyfill's e (<<>> = not started), and spurious failures left
vars == <<n, M, res, sub>>
P == Progs[n].prog
T == DOMAIN P
Op(t) == P[t][Len(res[t]) + 1]
Done(t) == Len(res[t]) = Len(P[t])
LastRes(t) == IF res[t] = <<>> THEN 0 ELSE res[t][Len(res[t])]
Ret(t, v) == res' = [res EXCEPT ![t] = Append(@, v)]
NoSub == UNCHANGED sub
Init == /\ n \in DOMAIN Progs
        /\ M = MemInit(Locs, T, [l \in Locs |-> IF l <= 2 THEN Progs[n].init[l] ELSE 0])
        /\ res = [t \in T |-> <<>>] /\ sub = [t \in T |-> [e |-> <<>>, left |-> 1]]
F(o, v) == C!Eval(o, <<v, v>>, <<>>, 0)[1][o[2]]
Top(l) == M.h[l][Last(M, l)].val
Step(t) == LET o == Op(t) l == o[2] IN
    \/ o[1] = "load" /\ NoSub /\ \E k \in Readable(M, t, l, Ld) : M' = Read(M, t, l, k, Ld) /\ Ret(t, M.h[l][k].val)
    \/ o[1] = "store" /\ NoSub /\ M' = Write(M, t, l, o[3], St, Bottom(Locs)) /\ Ret(t, 0)
    \/ o[1] \in {"exch", "add", "sub", "xor"} /\ NoSub /\ M' = Rmw(M, t, l, F(o, Top(l)), Rm) /\ Ret(t, Top(l))
    \/ o[1] = "cas" /\ NoSub /\ \/ Top(l) = o[3] /\ M' = Rmw(M, t, l, o[4], Rm) /\ Ret(t, 1000 + o[3])
                                \/ \E k \in Readable(M, t, l, Ld) : M.h[l][k].val # o[3] /\ M' = Read(M, t, l, k, Ld) /\ Ret(t, M.h[l][k].val)
    \/ o[1] = "pw" /\ NoSub /\ M' = Write(M, t, Plain(l), o[3], "rlx", Bottom(Locs)) /\ Ret(t, 0)
    \/ o[1] = "prif" /\ NoSub /\ IF LastRes(t) = o[3]
                                 THEN \E k \in Readable(M, t, Plain(l), "rlx") : M' = Read(M, t, Plain(l), k, "rlx") /\ Ret(t, M.h[Plain(l)][k].val)
                                 ELSE M' = M /\ Ret(t, -9)
    \/ o[1] \in {"padd", "psub"} /\
        \/ sub[t].e = <<>> /\ UNCHANGED res /\ \E k \in Readable(M, t, l, "rlx") : M' = Read(M, t, l, k, "rlx") /\ sub' = [sub EXCEPT ![t].e = <<M.h[l][k].val>>]
        \/ sub[t].e # <<>> /\ LET x == sub[t].e[1] IN
           \/ Top(l) = x /\ M' = Rmw(M, t, l, F(Abs(o), x), Rm) /\ Ret(t, x) /\ sub' = [sub EXCEPT ![t].e = <<>>]
           \/ UNCHANGED res /\ \E k \in Readable(M, t, l, Ld) : /\ M.h[l][k].val # x /\ M' = Read(M, t, l, k, Ld)
                                                                /\ sub' = [sub EXCEPT ![t].e = <<M.h[l][k].val>>]
           \* spurious
           \/ UNCHANGED res /\ sub[t].left > 0 /\ \E k \in Readable(M, t, l, Ld) :
                 /\ M.h[l][k].val = x /\ M' = Read(M, t, l, k, Ld) /\ sub' = [sub EXCEPT ![t].left = @ - 1]
AllDone == \A t \in T : Done(t)
Next == /\ \E t \in T : ~Done(t) /\ Step(t)
        /\ UNCHANGED n
Outcome == <<res, [l \in 1..2 |-> Top(l)]>>
Allowed == Outcome \in C!Outcomes(AbsProg(P), Progs[n].init)
Atomic == AllDone => Allowed
\* reachability report
Weak == IF AllDone /\ ~Allowed THEN PrintT("@T " \o ToJson([f |-> "-", o |-> <<Progs[n].name>>, t |-> "-", i |-> FALSE])) ELSE TRUE
=============================================================================
