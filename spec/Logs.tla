--------------------------------- MODULE Logs ---------------------------------
(* What log and check statements report.  A report is <<"log" or "error", level, <<name, value>>s>>; texts are
   character codes.  Statements: the reports they make, in order, how often their condition and arguments are
   evaluated, what they yield and whether they break into the debugger. *)
EXTENDS Names, Text
K_Dollar == <<36>>
K_Msg == <<36, 109, 115, 103>>
K_Dots == <<46, 46, 46>>
Pair(a, b) == <<a, b>>
\* CE_LOG(level, args): names from the text "$,args"
LogReports(level, levelText, argText, args) ==
    LET n == Len(args)
        names == Split(<<36, 44>> \o argText, n + 1)
    IN << <<"log", level, <<Pair(names[1], levelText)>> \o [j \in 1..n |-> Pair(names[j + 1], AsString(<<args[j]>>))]>> >>
\* CE_LOG_MSG(level, args): one text
MsgReports(level, levelText, args) == << <<"log", level, <<Pair(K_Dollar, levelText), Pair(K_Msg, AsString(args))>>>> >>
\* a failed check, or CE_ERROR
Failed(kind, fileLine, what, argText, args) ==
    LET body == <<Pair(kind, fileLine), Pair(what, argText)>> \o [j \in 1..Len(args) |-> Pair(K_Dots, AsString(<<args[j]>>))]
    IN << <<"log", 0, body>>, <<"error", 0, body>> >>

\* --- statements.  A configuration is <<error level, log level>>, each 0 or 1: what the program was compiled with.
\* An outcome: the reports made, how often the condition and each argument are evaluated, breaks into the debugger, and
\* whether the condition held (what the checks that yield something yield).
Outcome(reports, conds, args, breaks, yield) == [reports |-> reports, conds |-> conds, args |-> args, breaks |-> breaks, yield |-> yield]
LogOutcome(cf, full) == IF cf[2] = 1 THEN Outcome(full, 0, 1, 0, FALSE) ELSE Outcome(<<>>, 0, 0, 0, FALSE)
Fails(rejects, cond) == IF rejects THEN cond ELSE ~cond
CheckOutcome(cf, rejects, cond, answer, full) ==
    IF cf[1] = 1 /\ Fails(rejects, cond) THEN Outcome(full, 1, 1, IF answer THEN 1 ELSE 0, cond)
    ELSE Outcome(<<>>, 1, 0, 0, cond)
\* an error is reported in every configuration
ErrorOutcome(full) == Outcome(full, 0, 1, 1, FALSE)

\* --- the default handlers' text
Q == <<34>>
Letter(level) == LET l == IF level < 0 THEN 0 ELSE IF level > 7 THEN 7 ELSE level IN <<70, 69, 87, 78, 73, 68, 83, 77>>[l + 1]
RECURSIVE Items(_, _)
Items(ps, j) == IF j > Len(ps) THEN <<>>
                ELSE (IF j = 1 THEN <<32>> ELSE <<44, 32>>) \o Q \o ps[j][1] \o Q \o <<58, 32>> \o Q \o ps[j][2] \o Q \o Items(ps, j + 1)
LogText(level, ps) == <<Letter(level), 58, 32, 123>> \o Items(ps, 1) \o <<32, 125, 10>>
RECURSIVE Values(_, _)
Values(ps, j) == IF j > Len(ps) THEN <<>> ELSE (IF j = 3 THEN <<>> ELSE <<44, 32>>) \o ps[j][2] \o Values(ps, j + 1)
Banner == <<42,42,42,42,42,42,42,42,32,70,65,73,76,69,68,32,42,42,42,42,42,42,42,42,10>>
ErrorText(ps) == Banner \o IF Len(ps) < 2 THEN <<>>
                 ELSE ps[1][2] \o <<58, 32>> \o ps[1][1] \o <<58, 32>> \o ps[2][1] \o <<58, 32, 40>> \o ps[2][2] \o <<41, 32, 61, 32, 40>> \o Values(ps, 3) \o <<41, 10>>
=============================================================================
