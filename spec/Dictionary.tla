------------------------------ MODULE Dictionary -----------------------------
(* bounded map: slot[k] and val[k] for bound keys; nslots = N (slot 0 is nil) *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES nslots, slot, val
Keys == DOMAIN slot
DInit(N, s0, v0) == nslots = N /\ slot = s0 /\ val = v0
Slots == {slot[k] : k \in Keys}
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Bind(k, v, r) ==
    IF k \in Keys THEN r = slot[k] /\ val' = Upd(val, k, v) /\ UNCHANGED <<nslots, slot>>
    ELSE IF Cardinality(Keys) >= nslots - 1 THEN r = 0 /\ UNCHANGED <<nslots, slot, val>>
    ELSE r \in (1..nslots - 1) \ Slots /\ slot' = Upd(slot, k, r) /\ val' = Upd(val, k, v) /\ UNCHANGED nslots
Find(k, r) == r = (IF k \in Keys THEN slot[k] ELSE 0) /\ UNCHANGED <<nslots, slot, val>>
Put(k, v) == k \in Keys /\ val' = Upd(val, k, v) /\ UNCHANGED <<nslots, slot>>
OK == /\ Cardinality(Slots) = Cardinality(Keys) /\ Slots \subseteq 1..nslots - 1 /\ DOMAIN val = Keys
=============================================================================
