-------------------------------- MODULE Conc --------------------------------
(* Concurrent programs over atomic cells (loc) and plain cells (p), each operation taking effect at one instant, all in
   one order that agrees with every thread's own order.  Outcomes(prog, init) is every result the program may have:
   <<results of each thread, final values of the atomic cells>>.
     <<"load", l>>            -> value                <<"store", l, v>>      -> 0
     <<"exch", l, v>>         -> previous value       <<"add"|"sub"|"xor"|"and"|"or", l, v>> -> previous value
     <<"cas", l, e, d>>       -> 1000 * success + what `expected` holds afterwards
     <<"pw", k, v>> -> 0      <<"pr", k>>  -> value of plain cell k
     <<"prif", k, x>>         as pr, but only if the thread's previous result was x, otherwise -9 *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise
Eval(o, m, p, last) ==   \* <<m', p', result>>
    CASE o[1] = "load"  -> <<m, p, m[o[2]]>>
      [] o[1] = "store" -> <<[m EXCEPT ![o[2]] = o[3]], p, 0>>
      [] o[1] = "exch"  -> <<[m EXCEPT ![o[2]] = o[3]], p, m[o[2]]>>
      [] o[1] = "add"   -> <<[m EXCEPT ![o[2]] = @ + o[3]], p, m[o[2]]>>
      [] o[1] = "sub"   -> <<[m EXCEPT ![o[2]] = @ - o[3]], p, m[o[2]]>>
      [] o[1] = "xor"   -> <<[m EXCEPT ![o[2]] = @ ^^ o[3]], p, m[o[2]]>>
      [] o[1] = "and"   -> <<[m EXCEPT ![o[2]] = @ & o[3]], p, m[o[2]]>>
      [] o[1] = "or"    -> <<[m EXCEPT ![o[2]] = @ | o[3]], p, m[o[2]]>>
      [] o[1] = "cas"   -> IF m[o[2]] = o[3] THEN <<[m EXCEPT ![o[2]] = o[4]], p, 1000 + o[3]>> ELSE <<m, p, m[o[2]]>>
      [] o[1] = "pw"    -> <<m, [p EXCEPT ![o[2]] = o[3]], 0>>
      [] o[1] = "pr"    -> <<m, p, p[o[2]]>>
      [] o[1] = "prif"  -> <<m, p, IF last = o[3] THEN p[o[2]] ELSE -9>>
NPLAIN == 2
Start(prog, init) == [m |-> init, p |-> [k \in 1..NPLAIN |-> 0], r |-> [t \in DOMAIN prog |-> <<>>]]
Succ(prog, st) ==
    { LET n == Len(st.r[t]) e == Eval(prog[t][n + 1], st.m, st.p, IF n = 0 THEN 0 ELSE st.r[t][n])
      IN [m |-> e[1], p |-> e[2], r |-> [st.r EXCEPT ![t] = Append(@, e[3])]] : t \in {u \in DOMAIN prog : Len(st.r[u]) < Len(prog[u])} }
RECURSIVE Close(_, _)
Close(prog, layer) == LET nxt == UNION {Succ(prog, x) : x \in layer} IN IF nxt = {} THEN layer ELSE Close(prog, nxt)
Outcomes(prog, init) == {<<x.r, x.m>> : x \in Close(prog, {Start(prog, init)})}
=============================================================================
