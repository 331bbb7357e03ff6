------------------------------ MODULE BitsetMC ------------------------------
(* byte-array algorithm side by side: bit j lives in byte j \div 8 under mask 2^(j % 8) *)
EXTENDS Bitset, Json
CONSTANT Size
VARIABLES op, bytes
Bit(b, k) == (b \div 2^k) % 2 = 1
Set(b, k) == IF Bit(b, k) THEN b ELSE b + 2^k
Clr(b, k) == IF Bit(b, k) THEN b - 2^k ELSE b
NB == (Size + 7) \div 8
Init == SInit(Size) /\ bytes = [k \in 0..NB - 1 |-> 0] /\ op = <<"init">>
Next == \/ \E j \in 0..Size - 1, v \in BOOLEAN, form \in {"bit", "setv"} :
             /\ Write(j, v) /\ op' = <<form, j, IF v THEN 1 ELSE 0>>
             /\ bytes' = [bytes EXCEPT ![j \div 8] = IF v THEN Set(@, j % 8) ELSE Clr(@, j % 8)]
        \/ \E v \in BOOLEAN : /\ WriteAll(v) /\ op' = <<"all", IF v THEN 1 ELSE 0>>
                              /\ bytes' = [k \in 0..NB - 1 |-> IF v THEN 255 ELSE 0]
Refines == \A j \in 0..Size - 1 : (j \in bits) = Bit(bytes[j \div 8], j % 8)
Frame == [][ op'[1] \in {"bit", "setv"} => \A j \in 0..Size - 1 : j # op'[2] => ((j \in bits) = (j \in bits')) ]_<<n, bits, op>>
View == <<bits, bytes>>
Emit == PrintT("@T " \o ToJson([f |-> ToString(View), o |-> op', t |-> ToString(View'), i |-> op = <<"init">>]))
=============================================================================
