------------------------------- MODULE Reflect -------------------------------
(* Visiting a value through io.  Types: <<"atom">>, <<"class", <<<<name, k, type>>, ...>>>> (the bound fields, in bound
   order; k is the position of the field in the value), <<"array", type>>, <<"list", type>> and <<"as", k, type>> (part
   k of the value, or all of it if k = 0, is visited instead of it).  Values: an atom's bytes, a class' fields, an
   array's items, a list's <<size, all its slots>>. *)
EXTENDS Integers, Sequences, FiniteSets
EnterClass == <<"ec">>
LeaveClass == <<"lc">>
Name(n) == <<"n", n>>
EnterArray(n, var) == <<"ea", n, var>>
LeaveArray(n, var) == <<"la", n, var>>
Atom(b) == <<"a", b>>
RECURSIVE Visit(_, _)
RECURSIVE VisitFields(_, _, _)
RECURSIVE VisitItems(_, _, _, _)
VisitFields(fs, v, j) == IF j > Len(fs) THEN <<>> ELSE <<Name(fs[j][1])>> \o Visit(fs[j][3], v[fs[j][2]]) \o VisitFields(fs, v, j + 1)
\* (items that are atoms at once, there may be many)
VisitItems(t, v, j, n) == IF t = <<"atom">> THEN [q \in 1..(n - j + 1) |-> Atom(v[j + q - 1])] ELSE IF j > n THEN <<>> ELSE Visit(t, v[j]) \o VisitItems(t, v, j + 1, n)
Visit(t, v) == CASE t[1] = "atom" -> <<Atom(v)>>
                 [] t[1] = "class" -> <<EnterClass>> \o VisitFields(t[2], v, 1) \o <<LeaveClass>>
                 [] t[1] = "array" -> <<EnterArray(Len(v), FALSE)>> \o VisitItems(t[2], v, 1, Len(v)) \o <<LeaveArray(Len(v), FALSE)>>
                 [] t[1] = "list" -> <<EnterArray(v[1], TRUE)>> \o VisitItems(t[2], v[2], 1, v[1]) \o <<LeaveArray(v[1], TRUE)>>
                 [] t[1] = "as" -> IF t[2] = 0 THEN Visit(t[3], v) ELSE Visit(t[3], v[t[2]])
\* what a visitor that stores the atoms and list sizes of es leaves: [ok, v: the value afterwards, p: events used up]
RECURSIVE Read(_, _, _, _)
RECURSIVE ReadFields(_, _, _, _, _)
RECURSIVE ReadItems(_, _, _, _, _, _)
No(v) == [ok |-> FALSE, v |-> v, p |-> 0]
Expect(es, p, x) == p <= Len(es) /\ es[p] = x
ReadFields(fs, v, j, es, p) == IF j > Len(fs) THEN [ok |-> TRUE, v |-> v, p |-> p]
                               ELSE IF ~Expect(es, p, Name(fs[j][1])) THEN No(v)
                               ELSE LET r == Read(fs[j][3], v[fs[j][2]], es, p + 1)
                                    IN IF r.ok THEN ReadFields(fs, [v EXCEPT ![fs[j][2]] = r.v], j + 1, es, r.p) ELSE No(v)
ReadAtoms(v, n, es, p) ==
    IF (p + n) - 1 <= Len(es) /\ \A q \in 1..n : es[(p + q) - 1][1] = "a" /\ Len(es[(p + q) - 1][2]) = Len(v[q])
    THEN [ok |-> TRUE, v |-> [q \in 1..Len(v) |-> IF q <= n THEN es[(p + q) - 1][2] ELSE v[q]], p |-> p + n] ELSE No(v)
ReadItems(t, v, j, n, es, p) == IF t = <<"atom">> /\ j = 1 THEN ReadAtoms(v, n, es, p) ELSE IF j > n THEN [ok |-> TRUE, v |-> v, p |-> p]
                                ELSE LET r == Read(t, v[j], es, p)
                                     IN IF r.ok THEN ReadItems(t, [v EXCEPT ![j] = r.v], j + 1, n, es, r.p) ELSE No(v)
Close(r, es, x) == IF r.ok /\ Expect(es, r.p, x) THEN [r EXCEPT !.p = @ + 1] ELSE No(r.v)
Read(t, v, es, p) ==
    IF p > Len(es) THEN No(v)
    ELSE CASE t[1] = "atom" -> IF es[p][1] = "a" /\ Len(es[p][2]) = Len(v) THEN [ok |-> TRUE, v |-> es[p][2], p |-> p + 1] ELSE No(v)
           [] t[1] = "class" -> IF es[p] = EnterClass THEN Close(ReadFields(t[2], v, 1, es, p + 1), es, LeaveClass) ELSE No(v)
           [] t[1] = "array" -> IF es[p] = EnterArray(Len(v), FALSE)
                                THEN Close(ReadItems(t[2], v, 1, Len(v), es, p + 1), es, LeaveArray(Len(v), FALSE)) ELSE No(v)
           [] t[1] = "list" -> IF es[p][1] = "ea" /\ es[p][3] = TRUE /\ es[p][2] \in 0..Len(v[2])
                               THEN LET r == Close(ReadItems(t[2], v[2], 1, es[p][2], es, p + 1), es, LeaveArray(es[p][2], TRUE))
                                    IN [r EXCEPT !.v = <<es[p][2], r.v>>]
                               ELSE No(v)
           [] t[1] = "as" -> IF t[2] = 0 THEN Read(t[3], v, es, p)
                             ELSE LET r == Read(t[3], v[t[2]], es, p) IN [r EXCEPT !.v = [v EXCEPT ![t[2]] = r.v]]
Reads(t, v, es, w) == LET r == Read(t, v, es, 1) IN r.ok /\ r.p = Len(es) + 1 /\ r.v = w
=============================================================================
