------------------------------ MODULE MutexMC -------------------------------
EXTENDS Mutex, TLC, Json
CONSTANTS NT, NL, Shared
VARIABLES op
T == 1..NT
L == 1..NL
Init == MInit(L) /\ op = <<"init">>
Idle(t) == ~Waits(t)
Next ==
  \E t \in T, l \in L : Idle(t) /\
    \/ ~Holds(t, l) /\ \E b \in BOOLEAN :
         \/ op' = <<"acq", t, l>> /\ Acquire(t, l, b, {})
         \/ op' = <<"try", t, l>> /\ Try(t, l, b, {})
         \/ Shared /\ op' = <<"acqs", t, l>> /\ AcquireShared(t, l, b, {})
         \/ Shared /\ op' = <<"trys", t, l>> /\ TryShared(t, l, b, {})
    \/ \E G \in SUBSET T :
         \/ op' = <<"rel", t, l>> /\ Release(t, l, G)
         \/ Shared /\ op' = <<"rels", t, l>> /\ ReleaseShared(t, l, G)
    \/ op' = <<"renew", l>> /\ Renew(l)
Safe == \A l \in L : Exclusive(l) /\ (~Shared => sh[l] = {} /\ ws[l] = {})
\* no thread both holds and waits for the same lock, none waits twice
Sane == \A t \in T : Cardinality({l \in L : t \in wx[l]}) + Cardinality({l \in L : t \in ws[l]}) <= 1 /\ \A l \in L : ~(Holds(t, l) /\ t \in wx[l] \cup ws[l])
Progress == Rest
\* with no cyclic waiting between locks somebody can always move
Move == (\E l \in L : wx[l] \cup ws[l] # {}) => \E l \in L : ex[l] # 0 \/ sh[l] # {}
Emit == PrintT("@T " \o ToJson([f |-> ToString(mvars), o |-> op', t |-> ToString(mvars'), i |-> op = <<"init">>]))
=============================================================================
