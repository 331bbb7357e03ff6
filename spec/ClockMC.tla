------------------------------- MODULE ClockMC -------------------------------
(* The incremental algorithm (residual carried from poll to poll) against the closed form, for every small rate,
   frequency and poll pattern. *)
EXTENDS Integers
CONSTANTS F, T          \* largest rate/frequency, largest elapsed timestamps between polls
CONSTANT Max            \* horizon
VARIABLES fn, fd, freq, total, residual, tick
vars == <<fn, fd, freq, total, residual, tick>>
Init == fn \in 1..F /\ fd \in 1..F /\ freq \in 1..F /\ total = 0 /\ residual = 0 /\ tick = 0
Next == \E d \in 0..T :
          /\ total + d <= Max
          /\ total' = total + d
          /\ LET q == freq * fd
                 fract == (d % q) * fn + residual
             IN residual' = fract % q /\ tick' = tick + ((d \div q) * fn) + (fract \div q)
          /\ UNCHANGED <<fn, fd, freq>>
Exact == tick = (total * fn) \div (freq * fd)
ResidualInv == residual = (total * fn) % (freq * fd)
=============================================================================
