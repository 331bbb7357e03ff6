---------------------------- MODULE OsFileTrace ----------------------------
EXTENDS OsFile, TraceKit, SequencesExt
VARIABLES s, i, T             \* T[k]: span k is seen as 32 bit items
tvars == <<Files, H, V, T, s, i>>
Part(q) == FoldLeft(LAMBDA a, c : a \o Utf16(c), <<>>, q)
Units(q) == FoldLeft(LAMBDA a, k : a \o Part(SubSeq(q, k * 256 + 1, IF k * 256 + 256 < Len(q) THEN k * 256 + 256 ELSE Len(q))),
                     <<>>, [k \in 1..((Len(q) + 255) \div 256) |-> k - 1])
\* e[k..]: live handles and views per file, mapping objects, misuse, sizes of the files and their number, contents of the spans
Seen(e, k, F, h, v, t) ==
    /\ IF Windows THEN /\ e[k] = [n \in 1..Len(F) |-> Cardinality({j \in Slots : h[j] = n})]
                       /\ e[k + 1] = [n \in 1..Len(F) |-> Cardinality({j \in Slots : v[j] = n})]
                       /\ e[k + 4] = [n \in 1..Len(F) |-> IF F[n] = <<-1>> THEN -1 ELSE Len(F[n])] \o <<Cardinality({n \in 1..Len(F) : F[n] # <<-1>>})>>
       ELSE e[k] = <<>> /\ e[k + 1] = <<>> /\ e[k + 4] = <<>>
    /\ e[k + 2] = 0 /\ ~e[k + 3]
    /\ e[k + 5] = [j \in Slots |-> IF v[j] = 0 THEN <<>> ELSE SubSeq(F[v[j]], 1, IF t[j] THEN Len(F[v[j]]) - (Len(F[v[j]]) % 4) ELSE Len(F[v[j]]))]
Look(e, k) == Seen(e, k, Files', H', V', T')
Typed(k, n, no, size, null) ==
    \E r \in BOOLEAN : MapP(k, n, no, r) /\ null = ~r /\ size = IF r THEN Len(Files[n]) \div 4 ELSE 0
Step(e) ==
    CASE e[1] = "file" -> Files' = Append(Files, IF e[2] THEN e[3] ELSE <<-1>>) /\ UNCHANGED <<H, V, T>>
      \* a path that leads nowhere, given as code points: the units the OS was asked for
      [] e[1] = "path" -> e[3] = (IF Windows THEN Units(e[2]) ELSE <<>>) /\ ~e[4] /\ UNCHANGED <<Files, H, V, T>>
      [] e[1] = "open" -> OpenF(e[2], e[3], e[4], e[5]) /\ UNCHANGED T /\ Look(e, 6)
      [] e[1] = "close" -> CloseF(e[2], e[4], e[5]) /\ UNCHANGED T /\ Look(e, 6)
      [] e[1] = "map" -> MapF(e[2], e[3], e[4], e[5]) /\ e[6] = ~e[5] /\ T' = [T EXCEPT ![e[2]] = FALSE] /\ Look(e, 7)
      [] e[1] = "mapp" -> MapP(e[2], e[3], e[4], e[5]) /\ e[6] = ~e[5] /\ T' = [T EXCEPT ![e[2]] = FALSE] /\ Look(e, 7)
      [] e[1] = "typed" -> Typed(e[2], e[3], e[4], e[5], e[6]) /\ T' = [T EXCEPT ![e[2]] = TRUE] /\ Look(e, 7)
      [] e[1] = "unmap" -> /\ Unmap(e[2], TRUE) \/ Unmap(e[2], FALSE)
                           /\ (V[e[2]] # 0 => e[5] = Windows) /\ e[6] /\ T' = [T EXCEPT ![e[2]] = FALSE] /\ Look(e, 7)
      \* size, refused call, given, zero throughout
      [] e[1] = "alloc" -> e[4] = (Windows /\ e[3] # "alloc") /\ e[5] /\ UNCHANGED <<Files, H, V, T>>
      [] e[1] = "debug" -> e[3] = e[2] /\ UNCHANGED <<Files, H, V, T>>
      \* how, size, mapped, size seen, the bytes written at marked places, unmapped, what is left open, misuse
      [] e[1] = "huge" -> /\ e[4] = Windows /\ e[5] = (IF Windows THEN e[3] ELSE "0") /\ e[7] = Windows /\ e[8] = 0 /\ ~e[9]
                          /\ (\A j \in 1..Len(e[6]) : e[6][j][2] = 17 * e[6][j][1] + 3)
                          /\ (Windows => \E j \in 1..Len(e[6]) : e[6][j][1] = (IF e[2] = "typed" THEN 0 ELSE 4))
                          /\ UNCHANGED <<Files, H, V, T>>
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ Files = <<>> /\ H = [k \in Slots |-> 0] /\ V = H /\ T = [k \in Slots |-> FALSE]
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
