-------------------------------- MODULE Random --------------------------------
(* The generators as recurrences on words (decimal strings), and bounded draws over any stream of 32 bit words. *)
EXTENDS Big
T32(x) == BTrunc(x, 32)
T64(x) == BTrunc(x, 64)
RotL(x, k, w) == BTrunc(BOr(BShl(x, k), BShr(x, w - k)), w)

\* xoroshiro64**: state <<a, b>>
Ss(g) == LET r == BXor(g[1], g[2])
         IN [out |-> T32(BMul(RotL(T32(BMul(g[1], "2654435771")), 5, 32), "5")),
             g |-> <<BXor(BXor(RotL(g[1], 26, 32), r), T32(BShl(r, 9))), RotL(r, 13, 32)>>]
\* xoroshiro128++
Pp(g) == LET r == BXor(g[1], g[2])
         IN [out |-> T64(BAdd(RotL(T64(BAdd(g[1], g[2])), 17, 64), g[1])),
             g |-> <<BXor(BXor(RotL(g[1], 49, 64), r), T64(BShl(r, 21))), RotL(r, 28, 64)>>]
\* PCG32 (XSH-RR 64/32): the output is a permutation of the state before the step
PcgStep(q) == T64(BAdd(BMul(q, "6364136223846793005"), "15726070495360670683"))
Pcg(g) == LET q == g[1]
              x == T32(BShr(BXor(BShr(q, 18), q), 27))
              n == BInt(BShr(q, 59))
          IN [out |-> IF n = 0 THEN x ELSE RotL(x, 32 - n, 32), g |-> <<PcgStep(q)>>]
Gen(kind, g) == CASE kind = "ss" -> Ss(g) [] kind = "pp" -> Pp(g) [] kind = "pcg" -> Pcg(g)

\* bounded draws from one word w
Ranged(n, w) == BShr(BMul(n, w), 32)
Accept(n, w) == BLe(BMod("4294967296", n), T32(BMul(n, w)))
=============================================================================
