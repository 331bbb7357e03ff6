------------------------------- MODULE Mutex --------------------------------
(* Locks and the threads that use them.  A plain mutex is only ever taken exclusively.
     ex[l]    the exclusive holder (0: none)          sh[l]  the shared holders
     wx[l], ws[l]  threads blocked waiting for exclusive / shared ownership
   After every call, and whatever it caused, the system comes to rest: `Rest` says who may still be waiting then. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ex, sh, wx, ws
mvars == <<ex, sh, wx, ws>>
MInit(L) == ex = [l \in L |-> 0] /\ sh = [l \in L |-> {}] /\ wx = [l \in L |-> {}] /\ ws = [l \in L |-> {}]
Exclusive(l) == ex[l] # 0 => sh[l] = {}
Holds(t, l) == ex[l] = t \/ t \in sh[l]
Waits(t) == \E l \in DOMAIN ex : t \in wx[l] \cup ws[l]
Free(l) == ex[l] = 0 /\ sh[l] = {}
\* nobody waits who could be let in: an exclusive waiter only while somebody holds the lock, a shared waiter only while
\* an exclusive holder is in or an exclusive waiter is ahead of it
RestAt(l, e, h, x, r) == /\ (x # {} => e # 0 \/ h # {})
                         /\ (r # {} => e # 0 \/ (h # {} /\ x # {}))
                         /\ (e # 0 => h = {})
Rest == \A l \in DOMAIN ex : RestAt(l, ex[l], sh[l], wx[l], ws[l])
\* a lock l in state e, h lets in the waiters G of x (exclusive) and r (shared): the resulting states
LetIn(e, h, x, r, gx, gr) == /\ gx \subseteq x /\ gr \subseteq r /\ Cardinality(gx) <= 1
                             /\ (gx # {} => e = 0 /\ h = {} /\ gr = {})
                             /\ (gr # {} => e = 0)
Set(l, e, h, x, r) == /\ ex' = [ex EXCEPT ![l] = e] /\ sh' = [sh EXCEPT ![l] = h]
                      /\ wx' = [wx EXCEPT ![l] = x] /\ ws' = [ws EXCEPT ![l] = r]
\* lock l goes to <<e, h, x, r>> and then lets in G
Settle(l, e, h, x, r, G) ==
    LET gx == G \cap x gr == G \cap r e2 == IF gx = {} THEN e ELSE CHOOSE t \in gx : TRUE IN
    /\ G = gx \cup gr /\ LetIn(e, h, x, r, gx, gr)
    /\ Set(l, e2, h \cup gr, x \ gx, r \ gr)
    /\ RestAt(l, e2, h \cup gr, x \ gx, r \ gr)
\* calls of thread t on lock l; `now`: did it return at once; G: other threads whose calls returned because of it
Acquire(t, l, now, G) == /\ now = Free(l) /\ G = {}
                         /\ Settle(l, IF now THEN t ELSE ex[l], sh[l], IF now THEN wx[l] ELSE wx[l] \cup {t}, ws[l], G)
AcquireShared(t, l, now, G) == /\ (now => ex[l] = 0) /\ G = {}
                               /\ Settle(l, ex[l], IF now THEN sh[l] \cup {t} ELSE sh[l], wx[l], IF now THEN ws[l] ELSE ws[l] \cup {t}, G)
Try(t, l, ok, G) == /\ ok = Free(l) /\ G = {} /\ Settle(l, IF ok THEN t ELSE ex[l], sh[l], wx[l], ws[l], G)
TryShared(t, l, ok, G) == /\ (ok => ex[l] = 0) /\ (~ok => ex[l] # 0 \/ wx[l] # {}) /\ G = {}
                          /\ Settle(l, ex[l], IF ok THEN sh[l] \cup {t} ELSE sh[l], wx[l], ws[l], G)
Release(t, l, G) == ex[l] = t /\ Settle(l, 0, sh[l], wx[l], ws[l], G)
ReleaseShared(t, l, G) == t \in sh[l] /\ Settle(l, ex[l], sh[l] \ {t}, wx[l], ws[l], G)
\* destroyed and constructed again, only while unused
Renew(l) == Free(l) /\ wx[l] = {} /\ ws[l] = {} /\ UNCHANGED mvars
=============================================================================
