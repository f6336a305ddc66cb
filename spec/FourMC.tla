------------------------------- MODULE FourMC -------------------------------
(* Laws of the transform specification for every small shape and a family of *)
(* integer arrays.                                                            *)
EXTENDS Four
CONSTANT MaxN
VARIABLES sh, v, o
Init == /\ sh \in ((1..MaxN) \X (1..3))
        /\ v \in {[i \in 1..(sh[1] * sh[2]) |-> ((i * i + 3 * i) % 5) - 2],
                  [i \in 1..(sh[1] * sh[2]) |-> IF i = 1 THEN 1 ELSE 0],
                  [i \in 1..(sh[1] * sh[2]) |-> (i % 3) - 1]}
        /\ o \in {<<0, 0>>, <<1, 0>>, <<1, 1>>}
Next == UNCHANGED <<sh, v, o>>
Spec == Init /\ [][Next]_<<sh, v, o>>
A == [sh |-> <<sh[1], sh[2]>>, v |-> v]
Z == [A EXCEPT !.v = [i \in 1..Len(v) |-> 0]]
Unit == \A D \in {1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 28} : \A j \in 0..(2 * D) :
    /\ Near(CosF(D, j) * CosF(D, j) + SinF(D, j) * SinF(D, j), U * U, 3 * U)
    /\ \A i \in 0..3 : Near(CosF(D, i + j), RD(CosF(D, i) * CosF(D, j) - SinF(D, i) * SinF(D, j)), 3)
F(k) == Dft(A, Z, <<1, 2>>, k, -1)
(* inversion: the inverse DFT of the DFT is N times the array *)
Fr == Build(A.sh, LAMBDA k : RDiv(F(k)[1], 64))
Fi == Build(A.sh, LAMBDA k : RDiv(F(k)[2], 64))
Inverse == \A i \in 1..Len(v) :
    Near(Dft(Fr, Fi, <<1, 2>>, Unravel(A.sh, i - 1), 1)[1] \div 4096, 64 * Len(v) * v[i], 60 * Len(v))
(* Parseval *)
Parseval == Near(SumSq(Fr.v) + SumSq(Fi.v), 4096 * Len(v) * SumSq(v), 64 * Len(v) * (4 + 8 * AbsSum(v)))
(* Hermitian symmetry of the spectrum of a real array *)
Herm == \A i \in 1..Len(v) : LET k == Unravel(A.sh, i - 1)
                                 m == [d \in 1..2 |-> (-k[d]) % A.sh[d]] IN
    Near(F(k)[1], F(m)[1], 64) /\ Near(F(k)[2], -F(m)[2], 64)
B == [sh |-> <<2, 2>>, v |-> <<1, -2, 3, 1>>]
A2 == IF sh[1] >= 2 /\ sh[2] >= 2 THEN A ELSE [sh |-> <<2, 2>>, v |-> <<1, 2, 0, -1>>]
(* convolution commutes, and its sum is the product of the sums *)
ConvLaws == /\ Conv(A2, B, <<1, 2>>, o) = Conv(B, A2, <<1, 2>>, o)
            /\ Sum(Conv(A2, B, <<1, 2>>, o).v) = Sum(A2.v) * Sum(B.v)
(* the transposes are adjoint *)
IPr(X, Y) == Sum([i \in 1..Len(X.v) |-> X.v[i] * Y.v[i]])
Y1(d, zp) == LET g == Grad(A, d, zp) IN [g EXCEPT !.v = [i \in 1..Len(g.v) |-> ((i * 7) % 5) - 2]]
Adjoint == \A d \in 1..2, zp \in BOOLEAN :
    IPr(Grad(A, d, zp), Y1(d, zp)) = IPr(A, GradT(Y1(d, zp), d, zp))
(* a constant image is a fixed point of the filter *)
Const == [A EXCEPT !.v = [i \in 1..Len(v) |-> 3]]
TikFix == /\ TikOK([Const EXCEPT !.v = [i \in 1..Len(v) |-> 3 * U]], Const, 10)
          /\ ~TikOK([Const EXCEPT !.v = [i \in 1..Len(v) |-> 3 * U + (IF i = 1 THEN 300 ELSE 0)]], Const, 10)
=============================================================================
