-------------------------------- MODULE Bulk --------------------------------
(* Bounded lists (ce::bulk / ce::list): L[k] is list k.  Freshly grown items have the value `fresh(j)` the
   element type gives them; for trivial types that value is unspecified and is bound from the observation. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cap, L

Fits(k, n) == n <= cap - Len(L[k])      \* n may be astronomically large (2147483647 stands for SIZE_MAX)

BInit(c, ids) == cap = c /\ L = [k \in ids |-> <<>>]

BAppend(k, v, ok) ==
    /\ ok = Fits(k, 1)
    /\ L' = IF ok THEN [L EXCEPT ![k] = Append(@, v)] ELSE L
    /\ UNCHANGED cap

\* grow by n items whose values are `vals`
BAppendN(k, n, ok, vals) ==
    /\ ok = Fits(k, n)
    /\ Len(vals) = (IF ok THEN n ELSE 0)
    /\ L' = [L EXCEPT ![k] = @ \o vals]
    /\ UNCHANGED cap

BResize(k, n, ok, vals) ==
    /\ ok = (n <= cap)
    /\ Len(vals) = (IF ok /\ n > Len(L[k]) THEN n - Len(L[k]) ELSE 0)
    /\ L' = IF ~ok THEN L ELSE [L EXCEPT ![k] = IF n <= Len(@) THEN SubSeq(@, 1, n) ELSE @ \o vals]
    /\ UNCHANGED cap

\* positions are 0 based, as in the API
BRemove(k, j, ok) ==
    /\ ok = (j < Len(L[k]))
    /\ L' = IF ~ok THEN L
            ELSE [L EXCEPT ![k] = LET last == @[Len(@)] IN SubSeq([@ EXCEPT ![j + 1] = last], 1, Len(@) - 1)]
    /\ UNCHANGED cap

BRemoveOrdered(k, j, ok) ==
    /\ ok = (j < Len(L[k]))
    /\ L' = IF ~ok THEN L ELSE [L EXCEPT ![k] = SubSeq(@, 1, j) \o SubSeq(@, j + 2, Len(@))]
    /\ UNCHANGED cap

\* the items 0..m-1 appended one by one
BFill(k, m) == Fits(k, m) /\ L' = [L EXCEPT ![k] = @ \o [j \in 1..m |-> j - 1]] /\ UNCHANGED cap
BClear(k) == L' = [L EXCEPT ![k] = <<>>] /\ UNCHANGED cap
BSet(k, j, v) == j < Len(L[k]) /\ L' = [L EXCEPT ![k][j + 1] = v] /\ UNCHANGED cap
\* copy construction and assignment (k = m is self assignment)
BCopy(k, m) == L' = [L EXCEPT ![k] = L[m]] /\ UNCHANGED cap

Bounded == \A k \in DOMAIN L : Len(L[k]) <= cap
=============================================================================
