-------------------------------- MODULE Clock --------------------------------
(* A clock that converts OS timestamps (frequency per second) to ticks of fn/fd per second.  State: the timestamp at
   the last reset, at the last poll, and the frequency read at reset.  Nothing else: ticks are a function of them.
   Numbers are decimal strings (64 bit; timestamps wrap at 2^64). *)
EXTENDS Big
VARIABLES freq, base, last, total, tick   \* total: timestamps elapsed since reset (base .. last)
cvars == <<freq, base, last, total, tick>>
CInit == freq = "1" /\ base = "0" /\ last = "0" /\ total = "0" /\ tick = "0"
Ticks(t, fn, fd) == BDiv(BMul(t, fn), BMul(freq, fd))
Reset(f, now) == freq' = f /\ base' = now /\ last' = now /\ total' = "0" /\ tick' = "0"
\* one poll at time now; dt: what elapsed() returned
Poll(fn, fd, now, dt) ==
    LET t == BAdd(total, BTrunc(BSub(now, last), 64))
        n == Ticks(t, fn, fd)
    IN  /\ dt = BSub(n, tick)
        /\ total' = t /\ tick' = n /\ last' = now /\ UNCHANGED <<freq, base>>
=============================================================================
