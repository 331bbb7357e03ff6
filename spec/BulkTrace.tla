----------------------------- MODULE BulkTrace ------------------------------
(* Every event carries its arguments, result, an observation of all lists, and the life-cycle events
   <<what, slot, source>> of tracked elements: slot = 1000 * list + position for list storage, other numbers for
   temporaries.  `alive` is the set of slots holding a living element. *)
EXTENDS Bulk, TraceKit
VARIABLES s, i, alive
tvars == <<s, i, cap, L, alive>>

Slots(M) == UNION {{1000 * k + j : j \in 0..Len(M[k]) - 1} : k \in DOMAIN M}

RECURSIVE Live(_, _, _)
\* run the life-cycle events of one operation from position n on; {-1} marks an illegal event
Live(A, evs, n) ==
    IF n > Len(evs) THEN A
    ELSE LET w == evs[n][1] a == evs[n][2] b == evs[n][3] IN
         CASE w = "c" -> IF a \notin A THEN Live(A \cup {a}, evs, n + 1) ELSE {-1}
           [] w = "C" -> IF a \notin A /\ b \in A THEN Live(A \cup {a}, evs, n + 1) ELSE {-1}
           [] w = "a" -> IF a \in A /\ b \in A THEN Live(A, evs, n + 1) ELSE {-1}
           [] w = "d" -> IF a \in A THEN Live(A \ {a}, evs, n + 1) ELSE {-1}
           [] OTHER -> {-1}

\* lists, their lengths, room, back, iteration and span views as the driver saw them through the API
Obs(o, tracked) ==
    /\ \A k \in DOMAIN L' : o[k].cap = cap
    /\ \A k \in DOMAIN L' : IF "at" \in DOMAIN o[k] THEN  \* very long lists: some positions
                               /\ o[k].n = Len(L'[k]) /\ o[k].room = cap - Len(L'[k])
                               /\ L'[k] # <<>> => o[k].back = L'[k][Len(L'[k])]
                               /\ TRUE = (\A q \in DOMAIN o[k].at : o[k].at[q][2] = L'[k][o[k].at[q][1] + 1])
                            ELSE
                            /\ o[k].v = L'[k]
                            /\ o[k].it = L'[k]
                            /\ o[k].sp = L'[k]
                            /\ o[k].room = cap - Len(L'[k])
                            /\ L'[k] # <<>> => o[k].back = L'[k][Len(L'[k])]
    /\ tracked => alive' = Slots(L')

Step(e, tracked) ==
    LET o == e[Len(e) - 1] IN
    /\ CASE e[1] = "append"  -> BAppend(e[2], e[3], e[4])
         [] e[1] = "dup"     -> e[3] < Len(L[e[2]]) /\ BAppend(e[2], L[e[2]][e[3] + 1], e[4])
         [] e[1] = "appendn" -> BAppendN(e[2], e[3], e[4], e[5]) /\ TRUE = (tracked => \A j \in 1..Len(e[5]) : e[5][j] = -7)
         [] e[1] = "resize"  -> BResize(e[2], e[3], e[4], e[5]) /\ TRUE = (tracked => \A j \in 1..Len(e[5]) : e[5][j] = -7)
         [] e[1] = "remove"  -> BRemove(e[2], e[3], e[4])
         [] e[1] = "removeo" -> BRemoveOrdered(e[2], e[3], e[4])
         [] e[1] = "see"     -> UNCHANGED <<L, cap>>
         [] e[1] = "fill"    -> BFill(e[2], e[3])
         [] e[1] = "clear"   -> BClear(e[2])
         [] e[1] = "set"     -> BSet(e[2], e[3], e[4])
         [] e[1] = "assign"  -> BCopy(e[2], e[3])
         [] e[1] = "copy"    -> BCopy(e[2], e[3])
    /\ alive' = Live(alive, e[Len(e)], 1)
    /\ Obs(o, tracked)

Finish(e) ==  \* the lists die: nothing is left alive
    /\ e[1] = "end"
    /\ alive' = Live(alive, e[Len(e)], 1) /\ alive' = {}
    /\ L' = [k \in DOMAIN L |-> <<>>] /\ UNCHANGED cap

TInit == s \in 1..Len(Sessions) /\ i = 1 /\ BInit(Par(s)[2], 1..Par(s)[3]) /\ alive = {}
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ (IF Ev(s)[i][1] = "end" THEN Finish(Ev(s)[i]) ELSE Step(Ev(s)[i], Par(s)[1] >= 10))
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
