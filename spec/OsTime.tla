-------------------------------- MODULE OsTime --------------------------------
(* The OS boundary for time.  A reading of the OS clock is (seconds, nanoseconds); a sleep is the list of requests made
   to the OS.  Decimal strings. *)
EXTENDS Big
G == "1000000000"
\* ok: the OS answered; clocks: the clock ids asked
Stamp(freq, ok, sec, nsec, r) ==
    r = IF ok THEN BTrunc(BAdd(BMul(sec, freq), BDiv(BMul(nsec, freq), G)), 64) ELSE "0"
MonotonicClocks == {1, 4, 7}         \* MONOTONIC, MONOTONIC_RAW, BOOTTIME
RECURSIVE SumNs(_)
SumNs(q) == IF q = <<>> THEN "0" ELSE BAdd(BAdd(BMul(q[1][1], G), q[1][2]), SumNs(Tail(q)))
Valid(r) == BSgn(r[1]) >= 0 /\ BSgn(r[2]) >= 0 /\ BLt(r[2], G)
Sleep(ns, reqs) == (\A j \in 1..Len(reqs) : Valid(reqs[j])) /\ SumNs(reqs) = ns
\* Windows: the counter and its frequency are the OS's own
WinStamp(counter, frequency, r, f) == r = counter /\ f = frequency
\* and sleeps are whole milliseconds: none for nothing, otherwise at least one, within a millisecond of the time asked for;
\* what one request cannot hold becomes at least the longest
MS == "1000000"
Longest == "4294967294"
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN "0" ELSE BAdd(q[1], Sum(Tail(q)))
WinSleep(ns, reqs) ==
    \E t \in {Sum(reqs)} :
        IF ns = "0" THEN t = "0"
        ELSE IF BLt(Longest, BDiv(ns, MS)) THEN BLe(Longest, t)
        ELSE BLe("1", t) /\ BLt(BSub(ns, MS), BMul(t, MS)) /\ (t = "1" \/ BLt(BMul(t, MS), BAdd(ns, MS)))
=============================================================================
