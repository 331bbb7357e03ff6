------------------------------- MODULE LziiiMC -------------------------------
(* Every token sequence: small alphabets, group boundary included.  The encoding decodes to the output, and the
   decoder's byte-by-byte overlapping copy is the periodic copy of the specification. *)
EXTENDS Lziii, TLC, Json, SequencesExt
CONSTANTS Deep, Wide
VARIABLE n
Init == LInit /\ n = 0
Emit(op) == PrintT("@T " \o ToJson([f |-> <<enc, n>>, o |-> op, t |-> <<enc', n'>>, i |-> n = 0]))
Next == \/ /\ n < Deep /\ n' = n + 1
           /\ \E b \in IF n < Wide THEN {7, 255} ELSE {n} : Lit(b) /\ Emit(<<"lit", b>>)
        \/ /\ n < Deep /\ n' = n + 1
           /\ \E len \in IF n < Wide THEN {3, 4, 18} ELSE {3}, off \in IF n < Wide THEN {1, 2, 3, 5} ELSE {2} :
                Span(len, off) /\ Emit(<<"span", len, off>>)
\* n tokens at once are n tokens one by one
One(x, bit, bytes) == LET full == x.k = 8
                          c == IF full THEN Len(x.enc) + 1 ELSE x.ctl
                          n0 == IF full THEN 0 ELSE x.k
                          e0 == IF full THEN Append(x.enc, 0) ELSE x.enc
                      IN  [enc |-> [e0 EXCEPT ![c] = @ + (bit * 2^n0)] \o bytes, ctl |-> c, k |-> n0 + 1]
Now == [enc |-> enc, ctl |-> ctl, k |-> k]
ManyLits == \A m \in 0..(IF n < 4 THEN 20 ELSE 2) :
    LET z == FoldLeft(LAMBDA x, j : One(x, 1, <<(7 + ((j - 1) * 3)) % 256>>), Now, [j \in 1..m |-> j])
    IN  AfterMany(1, 1, LAMBDA j, x : (7 + ((j - 1) * 3)) % 256, m) = z
ManySpans == \A m \in 0..(IF n < 4 THEN 20 ELSE 2) :
    LET z == FoldLeft(LAMBDA x, j : One(x, 0, <<9, 241>>), Now, [j \in 1..m |-> j])
    IN  AfterMany(0, 2, LAMBDA j, x : IF x = 1 THEN 9 ELSE 241, m) = z
CopyOn == \A m \in 1..3, len \in {3, 5}, off \in 1..(IF Len(out) < 6 THEN Len(out) ELSE 6) :
            Copy(out, m * len, off) = FoldLeft(LAMBDA o, j : Copy(o, len, off), out, [j \in 1..m |-> j])
RECURSIVE Bytewise(_, _, _)
Bytewise(q, len, b) == IF len = 0 THEN q ELSE Bytewise(Append(q, q[b]), len - 1, b + 1)
RoundTrip == Decode(enc) = out
CopyInv == \A len \in {3, 7, 18}, off \in 1..(IF Len(out) < 6 THEN Len(out) ELSE 6) :
              Copy(out, len, off) = Bytewise(out, len, Len(out) - off + 1)
=============================================================================
