-------------------------------- MODULE LinMC --------------------------------
(* The closed forms used by the package (Sherman-Morrison, and its repeated  *)
(* application) solve the specified systems, checked exactly on all small    *)
(* Gaussian-integer data by clearing denominators; and the acceptance test   *)
(* rejects visibly wrong solutions.                                          *)
EXTENDS Lin
CONSTANT R
VARIABLES a1, a2, b, r4
GI == {<<x, y>> : x \in -R..R, y \in -R..R}
Init == /\ a1 \in [1..2 -> GI] /\ a2 \in [1..2 -> {<<1, 0>>, <<-1, 1>>, <<0, 2>>}]
        /\ b \in {<< <<1, 0>>, <<2, -1>> >>, << <<0, 1>>, <<-3, 0>> >>}
        /\ r4 \in {1, 4, 6}
Next == UNCHANGED <<a1, a2, b, r4>>
Spec == Init /\ [][Next]_<<a1, a2, b, r4>>
IP(u, v) == CAdd(CMul(CConj(u[1]), v[1]), CMul(CConj(u[2]), v[2]))
(* one term: x = (b - a (a^H b)/(a^H a + rho)) / rho; times rho * den:        *)
Den == 4 * IP(a1, a1)[1] + r4                        \* 4 (a^H a + rho)
XN(i) == CAdd(CScale(Den, b[i]), CScale(-4, CMul(a1[i], IP(a1, b))))   \* Den * rho * x
(* (rho + a a^H) x = b  <=>  rho4 XN + 4 a (a^H XN) = rho4 Den b              *)
SM == \A i \in 1..2 :
    CAdd(CScale(r4, XN(i)), CScale(4, CMul(a1[i], IP(a1, <<XN(1), XN(2)>>))))
      = CScale(r4 * Den, b[i])
(* two terms: Sherman-Morrison applied twice; y2 = (rho + a1 a1^H)^-1 a2      *)
YN(i) == CAdd(CScale(Den, a2[i]), CScale(-4, CMul(a1[i], IP(a1, a2))))  \* Den rho y2
(* den2 = 1 + a2^H y2, times Den rho4: *)
D2 == Den * r4 + 4 * IP(a2, <<YN(1), YN(2)>>)[1]
YIm == IP(a2, <<YN(1), YN(2)>>)[2] = 0
(* x = xb - y2 (a2^H xb)/den2 ; times D2 * Den * rho                          *)
ZN(i) == CAdd(CScale(D2, XN(i)), CScale(-4, CMul(YN(i), IP(a2, <<XN(1), XN(2)>>))))
Z == <<ZN(1), ZN(2)>>
SM2 == YIm /\ \A i \in 1..2 :
    CAdd(CAdd(CScale(r4, Z[i]), CScale(4, CMul(a1[i], IP(a1, Z)))), CScale(4, CMul(a2[i], IP(a2, Z))))
      = CScale(r4 * Den * D2, b[i])
(* acceptance: the rounded solution is accepted, perturbed ones are not       *)
Arr1(f(_)) == [sh |-> <<2>>, v |-> <<f(1), f(2)>>]
AH == [re |-> Arr1(LAMBDA i : a1[i][1]), im |-> Arr1(LAMBDA i : -a1[i][2])]
BB == [re |-> Arr1(LAMBDA i : b[i][1]), im |-> Arr1(LAMBDA i : b[i][2])]
XF(i, k) == RDiv(XN(i)[k] * S, Den * r4) * 4 + RDiv(4 * (XN(i)[k] * S - RDiv(XN(i)[k] * S, Den * r4) * Den * r4), Den * r4)
XX(p) == [re |-> Arr1(LAMBDA i : XF(i, 1) + (IF i = 1 THEN p ELSE 0)), im |-> Arr1(LAMBDA i : XF(i, 2))]
RR == [sh |-> <<1>>, v |-> <<r4>>]
Accepts == SystemOK(AH, RR, BB, XX(0), 1, 0, 4)
Rejects == \A p \in {-400, 400} : ~SystemOK(AH, RR, BB, XX(p), 1, 0, 4)
=============================================================================
