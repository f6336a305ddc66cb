------------------------------ MODULE ConvRepMC ------------------------------
(* Exhaustive check of the layout rules and of the projection on a small     *)
(* scope: layouts are consistent (sizes preserved, X carries C or 1 channel),*)
(* the projection is idempotent on its own support and feasible.             *)
EXTENDS ConvRep
CONSTANT B
VARIABLES nS, C, K, dCd, Cd, dk, x, zm
Init == /\ nS \in 0..2 /\ C \in 1..2 /\ K \in 1..3 /\ dCd \in 0..1 /\ Cd \in (IF dCd = 0 THEN {1} ELSE 1..2)
        /\ dk \in (IF nS = 1 THEN -1..1 ELSE {-1})
        /\ x \in [1..3 -> -B..B] /\ zm \in BOOLEAN
Next == UNCHANGED <<nS, C, K, dCd, Cd, dk, x, zm>>
Spec == Init /\ [][Next]_<<nS, C, K, dCd, Cd, dk, x, zm>>
dkk == DimK(nS, dCd, dk)
ssh == <<4>> \o (IF nS = 0 THEN <<>> ELSE IF nS = 2 THEN <<C, K>> ELSE IF dkk = 0 THEN <<C>> ELSE <<K>>)
L == CscLayout(<<2>> \o (IF dCd = 0 THEN <<>> ELSE <<Cd>>) \o <<5>>, ssh, dk, 1)
SizesPreserved == ~L.err => /\ Prod(L.shpS) = Prod(ssh) /\ L.dimC + L.dimK = nS
                            /\ L.M = 5 /\ Prod(L.shpD) = 2 * L.Cd * 5
(* the product D X, summed over filters, has the shape of S *)
Bc(a, b) == IF a = 1 THEN b ELSE a
Compatible == ~L.err => /\ Bc(L.shpD[2], L.shpX[2]) = L.C /\ Bc(L.shpD[3], L.shpX[3]) = L.K
MaskFits == ~L.err => \A sh \in {ssh, <<4>>, L.shpS} :
    LET ms == MShape(sh, L) IN Len(ms) = 4 /\ \A d \in 1..4 : ms[d] \in {1, L.shpS[d]}
WFits == (~L.err /\ L.Cd = 1) => \A sh \in {ssh \o <<5>>, <<1>>, L.shpX} :
    LET ws == WShape(sh, L) IN Len(ws) = 4 /\ \A d \in 1..4 : ws[d] \in {1, L.shpX[d]}
(* projection of the vector x (length 3) with support 2, embedded in length 4 *)
bl == << [M |-> 1, cb |-> << [C |-> 1, sup |-> <<2>>] >>] >>
X4 == [sh |-> <<3, 1, 1, 1>>, v |-> <<x[1], x[2], x[3]>>]
V == VecArr(X4, bl, 1, zm, <<4>>)
Feasible == /\ V.v[3] = 0 /\ V.v[4] = 0 /\ (zm => Sum(V.v) = 0)
            /\ V = VecArr(ZPadTo(Crop(X4, bl, 1), <<4>>), bl, 1, zm, <<4>>)
(* idempotent up to scale *)
Idem == LET W == VecArr(V, bl, 1, zm, <<4>>) IN
        \A i \in 1..4 : W.v[i] = V.v[i] * (IF zm THEN 2 ELSE 1)
=============================================================================
