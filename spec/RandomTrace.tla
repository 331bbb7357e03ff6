----------------------------- MODULE RandomTrace -----------------------------
(* g: generator state; memo: for every seed data the state it gave. *)
EXTENDS Random, TraceKit
C == INSTANCE Crc
F == INSTANCE Fnv
VARIABLES s, i, g, memo
tvars == <<s, i, g, memo>>
Kind == Par(s)[1]
One == Gen(Kind, g)
Two == Gen(Kind, One.g)
RECURSIVE Draw(_, _, _)
Draw(n, h, k) == LET r == Gen(Kind, h) IN IF Accept(n, r.out) THEN [v |-> Ranged(n, r.out), g |-> r.g, k |-> k] ELSE Draw(n, r.g, k + 1)
RECURSIVE Words(_, _, _)
Words(n, q, j) == IF Accept(n, q[j]) THEN [v |-> Ranged(n, q[j]), k |-> j] ELSE Words(n, q, j + 1)
\* the state some data stands for: its hashes (the dead pair of zeros is replaced by another state)
Crc32c == "2197175160"
StateOf(q) == LET half == Len(q) \div 2 IN
    CASE Kind = "ss"  -> <<C!CrcLong(Crc32c, "0", SubSeq(q, 1, half)), C!CrcLong(Crc32c, "0", q)>>
      [] Kind = "pp"  -> LET f == F!FnvLong(64, F!Basis(64), q) IN <<f, F!FnvLong(64, f, q)>>
      [] Kind = "pcg" -> <<PcgStep(T64(BAdd(PcgStep("0"), F!FnvLong(64, F!Basis(64), q))))>>
Seeded(key, h) == /\ \E x \in {StateOf(key)} : x # <<"0", "0">> => h = x
                  /\ (\A m \in memo : m[1] = key => m[2] = h)
                  /\ (Kind = "ss" => h # <<"0", "0">>)
                  /\ g' = h /\ memo' = memo \cup {<<key, h>>}
Step(e) == CASE e[1] = "state"  -> g' = e[2] /\ UNCHANGED memo
             [] e[1] = "seed"   -> Seeded(e[2], e[3])
             \* PCG's published seeding from a number
             [] e[1] = "seed64" -> e[3] = <<PcgStep(T64(BAdd(PcgStep("0"), e[2])))>> /\ g' = e[3] /\ UNCHANGED memo
             [] e[1] = "next"   -> e[2] = One.out /\ e[3] = One.g /\ g' = One.g /\ UNCHANGED memo
             [] e[1] = "next32" -> e[2] = T32(One.out) /\ e[3] = One.g /\ g' = One.g /\ UNCHANGED memo
             [] e[1] = "next64" -> /\ IF Kind = "ss" THEN e[2] = BOr(BShl(One.out, 32), Two.out) /\ e[3] = Two.g
                                                     ELSE e[2] = One.out /\ e[3] = One.g
                                   /\ g' = e[3] /\ UNCHANGED memo
             \* bounded draws from the generator: n, value, state after
             [] e[1] = "ranged" -> e[3] = Ranged(e[2], One.out) /\ BLt(e[3], e[2]) /\ e[4] = One.g /\ g' = One.g /\ UNCHANGED memo
             [] e[1] = "unbiased" -> LET d == Draw(e[2], g, 1) IN e[3] = d.v /\ BLt(e[3], e[2]) /\ e[4] = d.g /\ g' = d.g /\ UNCHANGED memo
             \* bounded draws from a given list of words: n, words, value, words consumed
             [] e[1] = "wranged" -> e[4] = Ranged(e[2], e[3][1]) /\ BLt(e[4], e[2]) /\ e[5] = 1 /\ UNCHANGED <<g, memo>>
             [] e[1] = "wunbiased" -> LET d == Words(e[2], e[3], 1) IN e[4] = d.v /\ BLt(e[4], e[2]) /\ e[5] = d.k /\ UNCHANGED <<g, memo>>
             \* all 2^32 first words: n, least and greatest number of words accepted for a value, words rejected
             [] e[1] = "hist" -> e[3] = BDiv("4294967296", e[2]) /\ e[4] = e[3] /\ e[5] = BMod("4294967296", e[2]) /\ UNCHANGED <<g, memo>>
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ g = <<"0", "0">> /\ memo = {}
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
