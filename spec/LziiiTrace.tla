----------------------------- MODULE LziiiTrace -----------------------------
EXTENDS Lziii, TraceKit
VARIABLES s, i
tvars == <<s, i, enc, out, ctl, k>>
Step(e) == CASE e[1] = "lit"  -> Lit(e[2])
             [] e[1] = "span" -> Span(e[2], e[3])
             [] e[1] = "lits" -> Lits(e[2], e[3], e[4])
             [] e[1] = "spans" -> Spans(e[2], e[3], e[4])
             \* the stream given to the code, its size(), what decode wrote
             [] e[1] = "check" -> e[2] = enc /\ e[3] = Len(out) /\ e[4] = out /\ UNCHANGED lvars
             \* a compile time decoder: stream, size, data
             [] e[1] = "static" -> LET d == Decode(e[2]) IN e[3] = Len(d) /\ e[4] = d /\ UNCHANGED lvars
TInit == s \in 1..Len(Sessions) /\ i = 1 /\ LInit
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i])
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
