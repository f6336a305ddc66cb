-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* Structured linear systems and dense linear algebra helpers of the        *)
(* package, specified by the equations that their results must satisfy.     *)
(* Complex arrays are [re |-> array, im |-> array] of equal shape.          *)
(* Data are small integers; the scalars rho, d, alpha are in quarters; the  *)
(* solution x is in units of 1/S.                                           *)
(***************************************************************************)
EXTENDS Arr

S == 4096
CBAt(A, ix) == <<BAt(A.re, ix), BAt(A.im, ix)>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CConj(x) == <<x[1], -x[2]>>
CScale(k, x) == <<k * x[1], k * x[2]>>
CAbs1(x) == NAbs(x[1]) + NAbs(x[2])
RECURSIVE CSumTo(_, _)
CSumTo(v, i) == IF i = 0 THEN <<0, 0>> ELSE CAdd(CSumTo(v, i - 1), v[i])
CSum(v) == CSumTo(v, Len(v))
CNear(x, y, tol) == Near(x[1], y[1], tol) /\ Near(x[2], y[2], tol)

(* sum over index j of dimension d of ah * x, at multi-index ix *)
InnerAt(ah, x, ix, d, m) == CSum([j \in 1..m |->
    CMul(CBAt(ah, [ix EXCEPT ![d] = j - 1]), CBAt(x, [ix EXCEPT ![d] = j - 1]))])
L1At(ah, ix, d, m) == Sum([j \in 1..m |-> CAbs1(CBAt(ah, [ix EXCEPT ![d] = j - 1]))])

(* (diag(d4)/4 + sum_k a_k a_k^H) x = b, with a = conj(ah); the inner       *)
(* products are over dimension dM and the terms of the sum over dimension   *)
(* dK (dK = 0: a single term).                                              *)
(* slack: additional relative tolerance in parts per 1024 of |x| scale      *)
SystemOK(ah, d4, b, x, dM, dK, slack) ==
    LET m == b.re.sh[dM]
        kk == IF dK = 0 THEN 1 ELSE ah.re.sh[dK]
        Kx(ix, k) == IF dK = 0 THEN ix ELSE [ix EXCEPT ![dK] = k - 1]
        \* x does not depend on k: BAt stretches its unit dimension
        lhs(ix) == CAdd(CScale(BAt(d4, ix), CBAt(x, ix)),
                        CScale(4, CSum([k \in 1..kk |->
                           CMul(CConj(CBAt(ah, Kx(ix, k))), InnerAt(ah, x, Kx(ix, k), dM, m))])))
        tol(ix) == slack + BAt(d4, ix)
                   + 4 * Sum([k \in 1..kk |-> CAbs1(CBAt(ah, Kx(ix, k))) * L1At(ah, Kx(ix, k), dM, m)])
    IN /\ x.re.sh = b.re.sh
       /\ \A i \in 1..Prod(b.re.sh) :
            LET ix == Unravel(b.re.sh, i - 1) IN
            CNear(lhs(ix), CScale(4 * S, CBAt(b, ix)), tol(ix))

(* ---- dense real matrices: 2-D arrays --------------------------------- *)
M(A, i, j) == A.v[(i - 1) * A.sh[2] + j]
MatMul(A, B) == [sh |-> <<A.sh[1], B.sh[2]>>,
                 v |-> [q \in 1..(A.sh[1] * B.sh[2]) |->
                        LET i == (q - 1) \div B.sh[2] + 1  j == ((q - 1) % B.sh[2]) + 1 IN
                        Sum([k \in 1..A.sh[2] |-> M(A, i, k) * M(B, k, j)])]]
Tr(A) == [sh |-> <<A.sh[2], A.sh[1]>>,
          v |-> [q \in 1..(A.sh[1] * A.sh[2]) |->
                 M(A, ((q - 1) % A.sh[1]) + 1, (q - 1) \div A.sh[1] + 1)]]
AbsM(A) == [A EXCEPT !.v = [i \in 1..Len(A.v) |-> NAbs(A.v[i])]]
RowMax(A) == VMaxAbs([i \in 1..A.sh[1] |-> Sum([j \in 1..A.sh[2] |-> NAbs(M(A, i, j))])])
MNear(A, B, tol) == A.sh = B.sh /\ \A i \in 1..Len(A.v) : Near(A.v[i], B.v[i], tol)
MScale(k, A) == [A EXCEPT !.v = [i \in 1..Len(A.v) |-> k * A.v[i]]]
MAdd(A, B) == [A EXCEPT !.v = [i \in 1..Len(A.v) |-> A.v[i] + B.v[i]]]
AsCol(b) == IF Len(b.sh) = 1 THEN [b EXCEPT !.sh = <<b.sh[1], 1>>] ELSE b
AsRow(b) == IF Len(b.sh) = 1 THEN [b EXCEPT !.sh = <<1, b.sh[1]>>] ELSE b

(* (A^T A + rho I) x = b *)
ATAI_OK(A, r4, b, x) ==
    /\ x.sh = b.sh
    /\ LET X == AsCol(x)
           G == MatMul(Tr(A), A) IN
       MNear(MAdd(MScale(4, MatMul(G, X)), MScale(r4, X)), MScale(4 * S, AsCol(b)),
             2 + r4 + 4 * RowMax(G))
(* x (A A^T + rho I) = b, x and b being rows *)
AATI_OK(A, r4, b, x) ==
    /\ x.sh = b.sh
    /\ LET X == AsRow(x)
           G == MatMul(A, Tr(A)) IN
       MNear(MAdd(MScale(4, MatMul(X, G)), MScale(r4, X)), MScale(4 * S, AsRow(b)),
             2 + r4 + 4 * RowMax(G))
(* A X B + alpha X = C *)
SylvOK(A, B, al4, C, X) ==
    /\ X.sh = C.sh
    /\ MNear(MAdd(MScale(4, MatMul(MatMul(A, X), B)), MScale(al4, X)), MScale(4 * S, C),
             2 + NAbs(al4) + 4 * RowMax(A) * RowMax(Tr(B)))

(* ---- products -------------------------------------------------------- *)
DotSpec(a, b, d) ==
    LET sh2 == [b.sh EXCEPT ![d] = a.sh[1]]
        F(ix) == Sum([j \in 1..a.sh[2] |-> M(a, ix[d] + 1, j) * At(b, [ix EXCEPT ![d] = j - 1])])
    IN Build(sh2, F)
BlockCirc(As) ==
    LET n == Len(As)  r == As[1].sh[1]  c == As[1].sh[2]
        F(ix) == LET p == ix[1] \div r  q == ix[2] \div c IN
                 At(As[((p - q) % n) + 1], <<ix[1] % r, ix[2] % c>>)
    IN Build(<<n * r, n * c>>, F)
Kron(B, C) ==
    LET F(ix) == At(B, <<ix[1] \div C.sh[1], ix[2] \div C.sh[2]>>)
                 * At(C, <<ix[1] % C.sh[1], ix[2] % C.sh[2]>>)
    IN Build(<<B.sh[1] * C.sh[1], B.sh[2] * C.sh[2]>>, F)
(* val = |ax - b| / max(|ax|, |b|), val in 1/S *)
RrsOK(ax, b, val) ==
    LET m == NMax(SumSq(ax.v), SumSq(b.v))
        dd == SumSq(VSub(ax.v, b.v)) IN
    IF m = 0 THEN val = 0
    ELSE LET e == ISqrt((dd * 65536) \div m) IN     \* 1/256
         dd * 65536 >= 0 /\ Near(val \div 16, e, 1)
=============================================================================
