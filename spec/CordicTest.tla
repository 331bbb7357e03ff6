----------------------------- MODULE CordicTest -----------------------------
(* pi, sine and cosine satisfy the laws that define them, to 2^-80 *)
EXTENDS Cordic
VARIABLE t
Eps == BPow2(20)
Close(a, b) == BLe(BSub(a, b), Eps) /\ BLe(BSub(b, a), Eps)
Init == t \in 0..95
Next == UNCHANGED t
C(n) == CosSin(ToString(n), 6)
PiOK == Close(Pi, PiFormula)
Circle == LET c == C(t) IN Close(BAdd(Fx(c[1], c[1]), Fx(c[2], c[2])), One)
Add == \A u \in {1, 5, 8, 16, 21} : LET a == C(t) b == C(u) c == C(t + u) IN
          /\ Close(c[1], BSub(Fx(a[1], b[1]), Fx(a[2], b[2]))) /\ Close(c[2], BAdd(Fx(a[1], b[2]), Fx(a[2], b[1])))
\* tan(atan(1/n)) = 1/n
Inverse == \A n \in {"2", "4", "8", "16", "32"} : LET c == Taylor(Atan(n)) IN Close(BMul(n, c[2]), c[1])
Quarter == C(0) = <<One, "0">> /\ C(16) = <<"0", One>> /\ C(32) = <<BNeg(One), "0">> /\ C(-16) = <<"0", BNeg(One)>>
Eighth == LET c == C(8) IN Close(c[1], c[2])
=============================================================================
