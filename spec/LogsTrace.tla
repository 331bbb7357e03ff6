------------------------------ MODULE LogsTrace ------------------------------
EXTENDS Logs, TraceKit
VARIABLES s, i
tvars == <<s, i>>
All(q, v) == \A j \in 1..Len(q) : q[j] = v
K_Reject == <<67, 69, 95, 82, 69, 74, 69, 67, 84>>
\* e: the reports at 7, evaluations of each argument at 6, breaks at 8
Shows(e, o) == e[7] = o.reports /\ All(e[6], o.args) /\ e[8] = o.breaks
Step(e, cf) ==
    CASE e[1] = "names" -> e[4] = Split(e[3], e[2])
      \* <<op, level, level text, argument text, values, evaluations of each argument, reports, breaks>>
      [] e[1] = "LOG"   -> Shows(e, LogOutcome(cf, LogReports(e[2], e[3], e[4], e[5])))
      [] e[1] = "MSG"   -> Shows(e, LogOutcome(cf, MsgReports(e[2], e[3], e[5])))
      \* <<op, condition, condition text, argument text, values, evaluations of each argument, reports, breaks,
      \*   kind, file and line, evaluations of the condition, hook's answer, yield (-1: none)>>
      [] e[1] = "CHECK" ->
            LET o == CheckOutcome(cf, e[9] = K_Reject, e[2], e[12], Failed(e[9], e[10], e[3], e[4], e[5]))
            IN Shows(e, o) /\ e[11] = o.conds /\ (e[13] = -1 \/ e[13] = (IF o.yield THEN 1 ELSE 0))
      [] e[1] = "ERROR" -> Shows(e, ErrorOutcome(Failed(e[9], e[10], <<>>, e[4], e[5])))
      \* default handlers: level, pairs, text printed, (error) answer
      [] e[1] = "oslog"   -> e[4] = LogText(e[2], e[3])
      [] e[1] = "oserror" -> e[4] = ErrorText(e[3]) /\ e[5] = (e[2] = 0)
TInit == s \in 1..Len(Sessions) /\ i = 1
TNext == \/ i <= Len(Ev(s)) /\ i' = i + 1 /\ s' = s /\ Step(Ev(s)[i], Par(s))
         \/ i > Len(Ev(s)) /\ UNCHANGED tvars
=============================================================================
