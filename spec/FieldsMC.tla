------------------------------ MODULE FieldsMC -------------------------------
(* The scanner of names_t at every short list of identifiers: names come out exact, terminated, inside the buffer. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Max
VARIABLES text, count
\* 0: end, 32: blank, 44: comma, others: name bytes (97 and 233)
At(j) == IF j <= Len(text) THEN text[j] ELSE 0
Blank(c) == c # 0 /\ c <= 32
NameByte(c) == c > 32 /\ c # 44
\* texts grow by states that can still end well: ids separated by commas, with blanks around them, never inside
State == LET RECURSIVE Go(_, _)
             Go(j, st) == IF j > Len(text) THEN st
                          ELSE Go(j + 1, IF Blank(text[j]) THEN (IF st = "id" THEN "after" ELSE st)
                                         ELSE IF text[j] = 44 THEN "before" ELSE "id")
         IN Go(1, "before")
Init == text = <<>> /\ count = 1
Next == /\ Len(text) < Max
        /\ \E c \in {32, 44, 97, 233} :
             /\ (c = 44 => State \in {"id", "after"})
             /\ (NameByte(c) => State \in {"before", "id"})
             /\ text' = Append(text, c) /\ count' = IF c = 44 THEN count + 1 ELSE count
\* the algorithm: k in the source, output so far, start of each name
RECURSIVE SkipB(_), Take(_, _), Run(_, _, _, _)
SkipB(k) == IF Blank(At(k)) THEN SkipB(k + 1) ELSE k
Take(k, acc) == IF NameByte(At(k)) THEN Take(k + 1, Append(acc, At(k))) ELSE <<k, acc>>
Run(i, k, out, starts) ==
    IF i > count THEN [out |-> out, starts |-> starts, k |-> k]
    ELSE LET a == Take(SkipB(k), <<>>) b == SkipB(a[1]) c == IF At(b) = 44 THEN b + 1 ELSE b
         IN Run(i + 1, c, out \o a[2] \o <<0>>, Append(starts, Len(out) + 1))
RECURSIVE Text(_, _)
Text(out, j) == IF out[j] = 0 THEN <<>> ELSE <<out[j]>> \o Text(out, j + 1)
\* the meaning: pieces between commas without their blanks
Piece(i) == LET c == {j \in 1..Len(text) : text[j] = 44}
                lo == {j \in c : Cardinality({x \in c : x <= j}) < i} hi == c \ lo
                a == IF lo = {} THEN 1 ELSE (CHOOSE j \in lo : \A x \in lo : x <= j) + 1
                b == IF hi = {} THEN Len(text) ELSE (CHOOSE j \in hi : \A x \in hi : x >= j) - 1
            IN SelectSeq(SubSeq(text, a, b), LAMBDA x : x > 32)
Exact == State \in {"id", "after"} =>
            LET r == Run(1, 1, <<>>, <<>>) IN
            /\ Len(r.out) <= Len(text) + 1
            /\ r.k = Len(text) + 1
            /\ \A i \in 1..count : Text(r.out, r.starts[i]) = Piece(i)
=============================================================================
