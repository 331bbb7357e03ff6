-------------------------------- MODULE LogsMC --------------------------------
(* One program, run once in each of the four configurations, side by side.  A statement's condition is a variable the
   program computes, so what a check yields may decide what runs next; a configuration must never decide it.  An argument's
   evaluation may itself change a variable: with checks compiled out that change does not happen, and the model shows
   that this is the only way a configuration is felt (the assumption Pure). *)
EXTENDS Logs
CONSTANTS Len0, Pure
Configs == {<<a, b>> : a \in 0..1, b \in 0..1}
Stmts == {<<"log", FALSE>>, <<"error", FALSE>>} \cup {<<k, n>> : k \in {"verify", "reject"}, n \in BOOLEAN}
VARIABLES pc, env, out, answers
vars == <<pc, env, out, answers>>
Init == /\ pc = 0
        /\ \E v \in BOOLEAN : env = [cf \in Configs |-> v]
        /\ out = [cf \in Configs |-> [reports |-> <<>>, conds |-> 0, args |-> 0, breaks |-> 0]]
        /\ answers = 0
Of(cf, st, answer, v) ==
    LET full == <<<<st[1], pc>>>>
    IN CASE st[1] = "log"    -> LogOutcome(cf, full)
         [] st[1] = "error"  -> ErrorOutcome(full)
         [] st[1] = "verify" -> CheckOutcome(cf, FALSE, IF st[2] THEN ~v ELSE v, answer, full)
         [] OTHER            -> CheckOutcome(cf, TRUE, IF st[2] THEN ~v ELSE v, answer, full)
Run(st, answer) ==
    /\ pc < Len0 /\ pc' = pc + 1
    /\ answers' = answers + (IF answer THEN 1 ELSE 0)
    /\ out' = [cf \in Configs |-> LET o == Of(cf, st, answer, env[cf])
               IN [reports |-> out[cf].reports \o o.reports, conds |-> out[cf].conds + o.conds, args |-> out[cf].args + o.args, breaks |-> out[cf].breaks + o.breaks]]
    /\ env' = [cf \in Configs |-> LET o == Of(cf, st, answer, env[cf])
                                     w == IF st[1] \in {"verify", "reject"} THEN o.yield ELSE env[cf]
                                 IN IF ~Pure /\ o.args = 1 THEN ~w ELSE w]
Next == (\E st \in Stmts, answer \in BOOLEAN : Run(st, answer)) \/ (pc = Len0 /\ UNCHANGED vars)
Full == <<1, 1>>
RECURSIVE Within(_, _)
Within(a, b) == a = <<>> \/ (b # <<>> /\ (IF a[1] = b[1] THEN Within(Tail(a), Tail(b)) ELSE Within(a, Tail(b))))
\* the program computes the same, and evaluates its conditions as often, in every configuration
SameProgram == \A cf \in Configs : env[cf] = env[Full] /\ out[cf].conds = out[Full].conds
\* a configuration only ever leaves reports out, keeps their order, and evaluates arguments only for reports it makes
OnlyLess == \A cf \in Configs : /\ Within(out[cf].reports, out[Full].reports) /\ out[cf].breaks <= out[Full].breaks
                                /\ out[cf].args = Len(out[cf].reports)
ErrorsStay == \A cf \in Configs : SelectSeq(out[cf].reports, LAMBDA r : r[1] = "error") = SelectSeq(out[Full].reports, LAMBDA r : r[1] = "error")
LevelsApart == /\ SelectSeq(out[<<1, 0>>].reports, LAMBDA r : r[1] # "log") = SelectSeq(out[Full].reports, LAMBDA r : r[1] # "log")
               /\ SelectSeq(out[<<0, 1>>].reports, LAMBDA r : r[1] = "log") = SelectSeq(out[Full].reports, LAMBDA r : r[1] = "log")
Silent == \A q \in DOMAIN out[<<0, 0>>].reports : out[<<0, 0>>].reports[q][1] = "error"
BreaksAgree == out[Full].breaks <= answers + Len(out[Full].reports)
=============================================================================
