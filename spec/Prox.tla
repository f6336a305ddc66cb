-------------------------------- MODULE Prox --------------------------------
(***************************************************************************)
(* Norms, proximal operators and projections.  A vector group is a sequence *)
(* of <<re, im>> pairs of integers in half units (1/2); parameters and      *)
(* results are in units of 1/1024 (results also <<re, im>>).                *)
(* Each operator is specified by the condition that characterises its       *)
(* value, not by an algorithm.                                              *)
(***************************************************************************)
EXTENDS Num
U == 1024
Mul(a, b) == (a \div U) * b + ((a % U) * b + U \div 2) \div U
SqHalf(z) == z[1] * z[1] + z[2] * z[2]                      \* 1/4 units
(* modulus of one element / Euclidean norm of a group, 1/1024 units *)
RootU(ss) == ISqrt(ss * 65536) * 2          \* ss in 1/4 units, ss < 32768
Modulus(z) == IF z[2] = 0 THEN 512 * NAbs(z[1]) ELSE RootU(SqHalf(z))
GSum(g, F(_)) == Sum([i \in 1..Len(g) |-> F(g[i])])
Norm2(g) == RootU(GSum(g, SqHalf))
Norm1(g) == GSum(g, Modulus)
Norm0(g, eps) == Sum([i \in 1..Len(g) |-> IF Modulus(g[i]) > eps THEN 1 ELSE 0])
Lift(g) == [i \in 1..Len(g) |-> <<512 * g[i][1], 512 * g[i][2]>>]
Tol == 8
(* x * a = v * b for all components, a > 0 *)
ScaledEq(x, a, v, b, tol) ==
    \A i \in 1..Len(x) : \A q \in 1..2 :
        Near(Mul(a, x[i][q]), Mul(b, 512 * v[i][q]), Mul(a, tol) + tol)
NearV(x, y, tol) == \A i \in 1..Len(x) : \A q \in 1..2 : Near(x[i][q], y[i][q], tol)
Zero(g) == [i \in 1..Len(g) |-> <<0, 0>>]

(* soft thresholding of one element with threshold a *)
SoftOK(x, z, a) ==
    LET m == Modulus(z) IN
    IF m <= a THEN NearV(<<x>>, <<<<0, 0>>>>, 2)
    ELSE ScaledEq(<<x>>, m, <<z>>, m - a, 3)
(* hard thresholding; a is alpha.  |z|^2 >= 2 alpha keeps the element; the   *)
(* values are chosen so that the comparison is exact                         *)
HardOK(x, z, a) ==
    NearV(<<x>>, IF 256 * SqHalf(z) >= 2 * a THEN Lift(<<z>>) ELSE <<<<0, 0>>>>, 2)
ProxL2OK(x, g, a) ==
    LET n == Norm2(g) IN
    IF n <= a - 2 THEN NearV(x, Zero(g), 2)
    ELSE IF n <= a + 2 THEN NearV(x, Zero(g), 8)
    ELSE ScaledEq(x, n, g, n - a, 4)
ProjL2OK(x, g, r) ==
    LET n == Norm2(g) IN
    IF n <= r - 4 THEN NearV(x, Lift(g), 1)
    ELSE IF n <= r + 4 THEN NearV(x, Lift(g), 12)
    ELSE ScaledEq(x, n, g, r, 4)
(* real groups only: projection onto the l1 ball.  Either the point is      *)
(* inside, or the result has norm r and is a common shrinkage of v          *)
ProjL1OK(x, g, r) ==
    LET n == Len(g)
        av(i) == 512 * NAbs(g[i][1])
        ax(i) == NAbs(x[i][1])
    IN IF Norm1(g) <= r THEN NearV(x, Lift(g), 1)
       ELSE LET S == {i \in 1..n : ax(i) > 2} IN
            /\ Near(Sum([i \in 1..n |-> ax(i)]), r, 2 * n)
            /\ \A i \in 1..n : x[i][1] * g[i][1] >= 0 /\ ax(i) <= av(i) + 1
            /\ \A i, j \in S : Near(av(i) - ax(i), av(j) - ax(j), 4)
            /\ \A i \in S : \A j \in 1..n : j \notin S => av(j) <= av(i) - ax(i) + 4
(* real groups: prox of alpha |x|_1 + beta |x|_2 *)
Soft1(z, a) == LET t == 512 * z[1] IN
               IF NAbs(t) <= a THEN 0 ELSE IF t > 0 THEN t - a ELSE t + a
Norm2U(s) == \* norm of a real sequence in 1/1024 units
    ISqrt(Sum([i \in 1..Len(s) |-> (s[i] \div 32) * (s[i] \div 32) * 16])) * 8
ProxSL1L2OK(x, g, a, b) ==
    LET s == [i \in 1..Len(g) |-> Soft1(g[i], a)]
        n == Norm2U(s) IN
    IF n <= b - 40 THEN NearV(x, Zero(g), 2)
    ELSE IF n <= b + 40 THEN NearV(x, Zero(g), 80)
    ELSE \A i \in 1..Len(g) : Near(Mul(n, x[i][1]), Mul(n - b, s[i]), 40 + NAbs(s[i]) \div 16)
(* real groups: prox of alpha (|x|_1 - beta |x|_2); b in 1/1024 *)
ProxDL1L2OK(x, g, a, b) ==
    LET mx == 512 * MaxTo([i \in 1..Len(g) |-> NAbs(g[i][1])], Len(g))
        s == [i \in 1..Len(g) |-> Soft1(g[i], a)]
        n == Norm2U(s)
        ab == Mul(a, b)
        one == mx - a + ab
        nz == {i \in 1..Len(g) : NAbs(x[i][1]) > 2} IN
    IF mx = 0 THEN NearV(x, Zero(g), 1)
    ELSE IF mx > a THEN
        \A i \in 1..Len(g) : Near(Mul(n, x[i][1]), Mul(n + ab, s[i]), 60 + NAbs(s[i]) \div 8)
    ELSE IF one <= 0 THEN NearV(x, Zero(g), 2)
    ELSE /\ \E i \in 1..Len(g) :
              /\ 512 * NAbs(g[i][1]) = mx
              /\ Near(x[i][1], IF g[i][1] > 0 THEN one ELSE -one, 3)
              /\ \A j \in nz : j = i

(***************************************************************************)
(* Nuclear norm of matrices with at most two rows or two columns.  V rows   *)
(* of integers in half units, X and s in units 1/1024.                      *)
(***************************************************************************)
Rows(M) == Len(M)
Cols(M) == Len(M[1])
Tr(M) == [j \in 1..Cols(M) |-> [i \in 1..Rows(M) |-> M[i][j]]]
Gram(M) == LET W == IF Rows(M) <= Cols(M) THEN M ELSE Tr(M) IN
           [i \in 1..Len(W) |-> [j \in 1..Len(W) |-> Dot(W[i], W[j])]]
Det(G) == IF Len(G) = 1 THEN G[1][1] ELSE G[1][1] * G[2][2] - G[1][2] * G[2][1]
FroDot(A, B) == Sum([i \in 1..Rows(A) |-> Sum([j \in 1..Cols(A) |-> Mul(A[i][j], B[i][j])])])
Coarse(M, d) == [i \in 1..Rows(M) |-> [j \in 1..Cols(M) |-> RDiv(M[i][j], d)]]
(* spectral norm of E at most a:  a^2 I - E'E positive semidefinite *)
SpecLe(E, a) ==
    LET G == Gram(Coarse(E, 32))
        c == RDiv(a, 32)
        t == 260
        d(i) == c * c + t - G[i][i]
    IN IF Len(G) = 1 THEN d(1) >= 0
       ELSE d(1) >= 0 /\ d(2) >= 0 /\ d(1) * d(2) + t * ((c * c) \div 4 + t) >= G[1][2] * G[1][2]
NucProxOK(X, s, V, a) ==
    LET E == [i \in 1..Rows(V) |-> [j \in 1..Cols(V) |-> 512 * V[i][j] - X[i][j]]]
        XC == Coarse(X, 32)
        sq == Sum([i \in 1..Len(s) |-> Mul(s[i], s[i])])
    IN /\ SpecLe(E, a)
       /\ Near(FroDot(E, X), Mul(a, Sum(s)), 40 + a \div 8)
       /\ Near(FroDot(X, X), sq, 20 + sq \div 128)
       /\ (Len(s) = 2 /\ Rows(V) >= 2 /\ Cols(V) >= 2) =>
            Near(ISqrt(NMax(0, Det(Gram(XC)))), (RDiv(s[1], 32) * RDiv(s[2], 32)),
                 120 + (RDiv(s[1], 32) * 4))
NucNormOK(v, V) ==      \* v in 1/1024;  (s1 + s2)^2 = |V|^2 + 2 s1 s2
    LET G == Gram(V)
        q == IF Len(G) = 1 THEN G[1][1] ELSE G[1][1] + G[2][2] + 2 * ISqrt(NMax(0, Det(G)))
        w == RDiv(v, 32) IN    \* 1/32 units
    Near(w * w, 256 * q, w + 2 * 256)
=============================================================================
