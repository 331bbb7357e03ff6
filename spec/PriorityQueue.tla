---------------------------- MODULE PriorityQueue ----------------------------
(* Bounded min priority queue.  An item is <<key, tag>>; only keys are compared; tags make items distinct. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cap, items
PInit(c) == cap = c /\ items = {}
\* (an equation, or TLC recurses once for each element)
LeastIn(x, S) == x \in S /\ TRUE = (\A y \in S : y[1] >= x[1])
Least(x) == LeastIn(x, items)
Enqueue(x, ok) == /\ ok = (Cardinality(items) < cap)
                  /\ items' = IF ok THEN items \cup {x} ELSE items
                  /\ UNCHANGED cap
\* several in a row: all that fit, in order
EnqueueAll(xs, oks) == LET room == cap - Cardinality(items) IN
    /\ oks = [j \in 1..Len(xs) |-> j <= room]
    /\ items' = items \cup {xs[j] : j \in 1..(IF room < Len(xs) THEN room ELSE Len(xs))}
    /\ UNCHANGED cap
Dequeue(x) == Least(x) /\ items' = items \ {x} /\ UNCHANGED cap
Bounded == Cardinality(items) <= cap
=============================================================================
