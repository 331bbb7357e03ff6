-------------------------------- MODULE ZOrder -------------------------------
(* z-order (Morton) codes of int32 pairs, and box queries over ascending lists of codes.  Codes are 64 bit: Big. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Big
VARIABLES data
RECURSIVE Spread(_)
Spread(u) == IF u = "0" THEN "0" ELSE BAdd(BMod(u, "2"), BMul("4", Spread(BDiv(u, "2"))))
Bias(x) == BAdd(x, "2147483648")
Encode(x, y) == BAdd(Spread(Bias(x)), BMul("2", Spread(Bias(y))))
EvenMask == "6148914691236517205"      \* 0x5555555555555555
XPart(z) == BAnd(z, EvenMask)
YPart(z) == BAnd(BShr(z, 1), EvenMask)
InBox(lo, hi, z) == /\ BLe(XPart(lo), XPart(z)) /\ BLe(XPart(z), XPart(hi))
                    /\ BLe(YPart(lo), YPart(z)) /\ BLe(YPart(z), YPart(hi))
Ascending(q) == TRUE = (\A j \in 1..Len(q) - 1 : BLe(q[j], q[j + 1]))
\* out picks positions of data in order, each at most once
SubSeqOf(out, q) == FoldLeft(LAMBDA k, z : IF k < Len(out) /\ out[k + 1] = z THEN k + 1 ELSE k, 0, q) = Len(out)
Load(q) == Ascending(q) /\ data' = q
Query(lo, hi, out) ==
    /\ SubSeqOf(out, data)
    \* all of those inside, as often as they are there
    /\ LET In(z) == InBox(lo, hi, z) IN SelectSeq(out, In) = SelectSeq(data, In)
    /\ TRUE = (\A j \in 1..Len(out) : BLe(BSub(lo, "65536"), out[j]) /\ BLe(out[j], BAdd(hi, "65536")))
    /\ UNCHANGED data
=============================================================================
