-------------------------------- MODULE FnvMC --------------------------------
(* A 6 bit FNV-1a over 2 bit bytes: hashing words of several bytes by shifting is hashing their bytes in little endian
   order, also for words read as signed numbers (arithmetic shift), and hashing composes over concatenation. *)
EXTENDS Integers, Sequences, Bitwise
VARIABLES h, w, q
Init == h \in 0..63 /\ w \in -32..31 /\ q = <<>>
Next == Len(q) < 3 /\ \E b \in 0..3 : q' = Append(q, b) /\ UNCHANGED <<h, w>>
S(x, b) == ((x ^^ b) * 19) % 64
RECURSIVE Run(_, _, _)
Run(x, a, j) == IF j > Len(a) THEN x ELSE Run(S(x, a[j]), a, j + 1)
ByteAt(v, n) == (v \div 4^n) % 4                    \* floor division is the arithmetic shift
Word == S(S(S(h, w % 4), (w \div 4) % 4), ((w \div 4) \div 4) % 4)
SignedWord == Word = Run(h, <<ByteAt(w, 0), ByteAt(w, 1), ByteAt(w, 2)>>, 1) /\ Word = Run(h, <<w % 4, ((w % 64) \div 4) % 4, (w % 64) \div 16>>, 1)
Compose == \A k \in 0..Len(q) : Run(h, q, 1) = Run(Run(h, SubSeq(q, 1, k), 1), SubSeq(q, k + 1, Len(q)), 1)
=============================================================================
