--------------------------------- MODULE Crc ---------------------------------
(* CRC32, bit serial and reflected, inverted before and after.  Decimal strings; P is the reflected polynomial. *)
EXTENDS Big, SequencesExt
M32 == "4294967295"
Inv(c) == BXor(c, M32)
Bit(P, v) == IF BMod(v, "2") = "1" THEN BXor(BShr(v, 1), P) ELSE BShr(v, 1)
Byte(P, v, b) == Bit(P, Bit(P, Bit(P, Bit(P, Bit(P, Bit(P, Bit(P, Bit(P, BXor(v, ToString(b))))))))))
RECURSIVE Run(_, _, _, _)
Run(P, v, q, j) == IF j > Len(q) THEN v ELSE Run(P, Byte(P, v, q[j]), q, j + 1)
Crc(P, c, q) == Inv(Run(P, Inv(c), q, 1))
\* long data: the same through the table of one byte steps (CrcMC), folded over the bytes
Polys == {"2197175160", "3988292384", "3945912366", "2147483649"}
Tabs == [P \in Polys |-> [x \in 0..255 |-> Byte(P, ToString(x), 0)]]
CrcLong(P, c, q) == Inv(FoldLeft(LAMBDA v, b : BXor(BShr(v, 8), Tabs[P][BInt(BTrunc(BXor(v, ToString(b)), 8))]), Inv(c), q))
\* bytes given by a rule
Made(n, a, b) == [j \in 1..n |-> ((((j - 1) % 256) * a) + (((j - 1) \div 256) * b)) % 256]
=============================================================================
