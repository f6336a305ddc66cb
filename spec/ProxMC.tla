------------------------------- MODULE ProxMC -------------------------------
(* Sanity of the characterisations on all small real vectors: the condition *)
(* accepts the true minimiser and rejects visibly different points, and the  *)
(* accepted points minimise the objective among lattice competitors.         *)
EXTENDS Prox
CONSTANT B
VARIABLES v, a
Init == v \in ((-B..B) \X (-B..B)) /\ a \in {0, 512, 1024, 2560}
Next == UNCHANGED <<v, a>>
Spec == Init /\ [][Next]_<<v, a>>
G == << <<v[1], 0>>, <<v[2], 0>> >>
S(i) == Soft1(G[i], a)
X == << <<S(1), 0>>, <<S(2), 0>> >>
(* objective (x-v)^2/2 + a |x|_1 in coarse units 1/32 (squared 1/1024) *)
Obj1(x) == LET d1 == (x[1] - 512 * v[1]) \div 32  d2 == (x[2] - 512 * v[2]) \div 32 IN
           d1 * d1 + d2 * d2 + 2 * (a \div 32) * ((NAbs(x[1]) + NAbs(x[2])) \div 32)
SoftMinimises == \A p, q \in {-2048, -1024, -512, 0, 512, 1024, 2048} :
    Obj1(<<S(1), S(2)>>) <= Obj1(<<p, q>>)
SoftAccepted == \A i \in 1..2 : SoftOK(X[i], G[i], a)
SoftUnique == \A i \in 1..2 : \A d \in {-64, 64} : ~SoftOK(<<S(i) + d, 0>>, G[i], a)
(* projections are idempotent and non-expansive towards the origin *)
ProjFixed == (a > 0 /\ Norm2(G) <= a - 4) =>
    (ProjL2OK(Lift(G), G, a) /\ (G = Zero(G) \/ ~ProjL2OK(Zero(G), G, a)))
ProjL1Fixed == Norm1(G) <= a => ProjL1OK(Lift(G), G, a)
ProjL1NotIdentity == Norm1(G) > a + 64 => ~ProjL1OK(Lift(G), G, a)
(* soft thresholding by t is the l1 projection for radius |soft(v, t)|_1 *)
ProjIsShrink == ProjL1OK(X, G, NAbs(S(1)) + NAbs(S(2)))
HardKeepsLarge == \A i \in 1..2 : 256 * SqHalf(G[i]) >= 2 * a => HardOK(Lift(G)[i], G[i], a)
=============================================================================
