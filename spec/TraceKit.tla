------------------------------ MODULE TraceKit ------------------------------
(* Shared by every trace specification.  A trace file holds one recorded session of the real code per line;
   each session becomes one initial state (s), each recorded event one step (i), and the module-specific Step
   must be enabled with exactly the recorded arguments, results and observations.  A session that is not a
   behaviour of the specification therefore shows up as a deadlock at <<s, i>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Ev(s) == Sessions[s].ev
Par(s) == Sessions[s].p
=============================================================================
