------------------------------- MODULE OsFile -------------------------------
(* Files as the OS layer offers them: named by UTF-8 paths, opened read only, mapped into memory as spans.
   Files[n]: contents of file n, or <<-1>> where no such file exists.  H[k]: file behind the user's handle k (0: none),
   V[k]: file mapped by span k (0: empty).  A request may name an OS call that refuses this time. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Windows                  \* FALSE: an OS layer without files, where everything is refused
VARIABLES Files, H, V
Slots == 1..3
Exists(n) == Files[n] # <<-1>>
CanOpen(n, no) == Windows /\ Exists(n) /\ no # "create"
CanMap(n, no) == Windows /\ n # 0 /\ Files[n] # <<>> /\ no \notin {"size", "mapping", "view"}
OpenF(k, n, no, r) == H[k] = 0 /\ r = CanOpen(n, no) /\ H' = [H EXCEPT ![k] = IF r THEN n ELSE 0] /\ UNCHANGED <<Files, V>>
CloseF(k, no, r) == r = (Windows /\ H[k] # 0 /\ no # "close") /\ H' = [H EXCEPT ![k] = 0] /\ UNCHANGED <<Files, V>>
Map(k, n, can, r) == V[k] = 0 /\ r = can /\ V' = [V EXCEPT ![k] = IF r THEN n ELSE 0] /\ UNCHANGED <<Files, H>>
MapF(k, h, no, r) == Map(k, H[h], CanMap(H[h], no), r)
MapP(k, n, no, r) == Map(k, n, CanOpen(n, no) /\ CanMap(n, no), r)
Unmap(k, r) == r = (V[k] # 0) /\ V' = [V EXCEPT ![k] = 0] /\ UNCHANGED <<Files, H>>
Count(F, n) == Cardinality({k \in Slots : F[k] = n})
\* --- text: code points to UTF-8 bytes and to UTF-16 units
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
=============================================================================
