--------------------------------- MODULE Fnv ---------------------------------
(* FNV-1a: for every byte, hash := (hash xor byte) * prime mod 2^width. *)
EXTENDS Big, SequencesExt
Prime(w) == IF w = 32 THEN "16777619" ELSE "1099511628211"
Basis(w) == IF w = 32 THEN "2166136261" ELSE "14695981039346656037"
RECURSIVE Run(_, _, _, _)
Run(w, h, q, j) == IF j > Len(q) THEN h ELSE Run(w, BTrunc(BMul(BXor(h, ToString(q[j])), Prime(w)), w), q, j + 1)
Fnv(w, h, q) == Run(w, h, q, 1)
FnvLong(w, h, q) == FoldLeft(LAMBDA x, b : BTrunc(BMul(BXor(x, ToString(b)), Prime(w)), w), h, q)
Made(n, a, b) == [j \in 1..n |-> 1 + (((((j - 1) % 255) * a) + (((j - 1) \div 255) * b)) % 255)]
=============================================================================
