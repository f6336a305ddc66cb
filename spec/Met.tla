---------------------------------- MODULE Met ----------------------------------
(***************************************************************************)
(* Image quality metrics, robust regressions, interpolation filters and     *)
(* image helper functions, as exact (integer) definitions.                  *)
(* Positive rationals are compared as <<m, e>> = m * 2^e, 2^14 <= m < 2^15. *)
(***************************************************************************)
EXTENDS Arr

RECURSIVE NormP(_, _)
NormP(m, e) == IF m >= 32768 THEN NormP(m \div 2, e + 1)
               ELSE IF m < 16384 THEN NormP(2 * m, e - 1) ELSE <<m, e>>
(* r = num / den up to a relative error of tol / 2^15; num, den > 0 *)
RatioOK(r, num, den, tol) ==
    LET a == NormP(num, 0)  b == NormP(den, 0)
        k == a[2] - b[2] - r[2] IN
    /\ k \in 13..16
    /\ NAbs(r[1] * b[1] - a[1] * (2 ^ k)) <= tol * 32768

(* --- error statistics of (complex) integer sequences --------------------- *)
AbsSq(x, y) == [i \in 1..Len(x) |-> x[i] * x[i] + y[i] * y[i]]
(* n^2 times the variance *)
VarN(x, y) == Len(x) * Sum(AbsSq(x, y)) - Sum(x) * Sum(x) - Sum(y) * Sum(y)
SqErr(a, ai, b, bi) == Sum(AbsSq(VSub(a, b), VSub(ai, bi)))
(* 16 times the sum of absolute errors *)
AbsErr16(a, ai, b, bi) ==
    LET q == AbsSq(VSub(a, b), VSub(ai, bi)) IN
    Sum([i \in 1..Len(q) |-> IF ai[i] = 0 /\ bi[i] = 0 THEN 16 * NAbs(a[i] - b[i])
                             ELSE ISqrt(256 * q[i])])
Range(x) == LET s == SortI(x) IN s[Len(s)] - s[1]
(* decibel value observed as class and linear ratio, against num / den *)
DbOK(v, num, den, tol) ==
    IF den = 0 THEN (num > 0 => v.cls = "inf") /\ (num = 0 => v.cls = "nan")
    ELSE IF num = 0 THEN v.cls = "ninf"
    ELSE v.cls = "num" /\ RatioOK(v.r, num, den, tol)

(* --- PAMSE ----------------------------------------------------------------- *)
G08 == <<2, 90, 935, 2042, 935, 90, 2>>          \* Gaussian, sd 0.8, 4096 sum
RECURSIVE SymIdx(_, _)
SymIdx(i, n) == IF i < 0 THEN SymIdx(-1 - i, n)
                ELSE IF i >= n THEN SymIdx(2 * n - 1 - i, n) ELSE i
(* in 1/64 *)
Blur(A) ==
    LET r == A.sh[1]  q == A.sh[2]
        F1(ix) == RDiv(Sum([k \in 1..7 |-> G08[k] * At(A, <<SymIdx(ix[1] + k - 4, r), ix[2]>>)]), 64)
        B == Build(A.sh, F1)
        F2(ix) == RDiv(Sum([k \in 1..7 |-> G08[k] * At(B, <<ix[1], SymIdx(ix[2] + k - 4, q)>>)]), 4096)
    IN Build(A.sh, F2)

(* --- GMSD -------------------------------------------------------------------- *)
(* 4 times the 2x2 average (over the preceding row and column), subsampled     *)
Half4(A) ==
    LET r == A.sh[1]  q == A.sh[2]
        sh == <<(r + 1) \div 2, (q + 1) \div 2>>
        F(ix) == Sum([k \in 1..4 |-> At(A, <<SymIdx(2 * ix[1] - (k % 2), r),
                                              SymIdx(2 * ix[2] - (k \div 3), q)>>)])
    IN Build(sh, F)
(* squared gradient magnitude (3 * 4 times the gradient), Prewitt *)
GradSq(Y) ==
    LET r == Y.sh[1]  q == Y.sh[2]
        S(i, j) == At(Y, <<SymIdx(i, r), SymIdx(j, q)>>)
        F(ix) == LET i == ix[1]  j == ix[2]
                     gx == Sum([k \in 1..3 |-> S(i + k - 2, j + 1) - S(i + k - 2, j - 1)])
                     gy == Sum([k \in 1..3 |-> S(i + 1, j + k - 2) - S(i - 1, j + k - 2)])
                 IN gx * gx + gy * gy
    IN Build(Y.sh, F)
(* quality in 1/1024 from squared gradients in 1/144, T = 170 *)
QualOK(q, g1, g2) ==
    LET sa == ISqrt(256 * g1)
        sb == ISqrt(256 * g2)
        t == g1 + g2 + 24480
        num == (2 * sa * sb) \div 256 + 24480 IN
    NAbs(q * t - 1024 * num) <= t + 8 * (sa + sb) + 4096
StdOK(score, q) ==
    LET n == Len(q)
        vn == n * SumSq(q) - Sum(q) * Sum(q) IN
    NAbs(n * score - ISqrt(NMax(vn, 0))) <= 2 * n

(* --- regressions --------------------------------------------------------------- *)
Det2(a, b, c, d) == a * d - b * c
Det3(m) == m[1][1] * Det2(m[2][2], m[2][3], m[3][2], m[3][3])
         - m[1][2] * Det2(m[2][1], m[2][3], m[3][1], m[3][3])
         + m[1][3] * Det2(m[2][1], m[2][2], m[3][1], m[3][2])
(* candidate points <<numerators, denominator>> *)
Sub2(A, b, i, j) == LET d == Det2(A[i][1], A[i][2], A[j][1], A[j][2]) IN
    <<<<Det2(b[i], A[i][2], b[j], A[j][2]), Det2(A[i][1], b[i], A[j][1], b[j])>>, d>>
L1Cand(A, b) ==
    IF Len(A[1]) = 1 THEN {<<<<b[i]>>, A[i][1]>> : i \in 1..Len(A)}
    ELSE {Sub2(A, b, i, j) : i \in 1..Len(A), j \in 1..Len(A)}
Sg == {-1, 1}
Cheb1(A, b, i, j, s) == <<<<b[i] - s * b[j]>>, A[i][1] - s * A[j][1]>>
Cheb2(A, b, i, j, k, s, t) ==
    LET M3(c) == << c[1], c[2], c[3] >>
        R3(p) == <<A[p][1], A[p][2]>>
        e == <<1, s, t>>
        rows == <<i, j, k>>
        full == [p \in 1..3 |-> <<A[rows[p]][1], A[rows[p]][2], e[p]>>]
        x1 == [p \in 1..3 |-> <<b[rows[p]], A[rows[p]][2], e[p]>>]
        x2 == [p \in 1..3 |-> <<A[rows[p]][1], b[rows[p]], e[p]>>]
    IN <<<<Det3(x1), Det3(x2)>>, Det3(full)>>
LinfCand(A, b) ==
    L1Cand(A, b) \union
    (IF Len(A[1]) = 1 THEN {Cheb1(A, b, i, j, s) : i \in 1..Len(A), j \in 1..Len(A), s \in Sg}
     ELSE UNION {UNION {{Cheb2(A, b, i, j, k, s, t) : s \in Sg, t \in Sg}
                        : k \in (j + 1)..Len(A)} : i \in 1..Len(A), j \in 1..Len(A)})
ResAt(A, b, x, q) == [i \in 1..Len(A) |-> NAbs(Dot(A[i], x) - q * b[i])]
MaxOf(v) == VMaxAbs(v)
(* x in 1/4096: no candidate has a smaller objective *)
L1OK(A, b, x, slack) ==
    LET o == Sum(ResAt(A, b, x, 4096)) IN
    \A c \in L1Cand(A, b) : c[2] # 0 =>
        o <= (4096 * Sum(ResAt(A, b, c[1], c[2]))) \div NAbs(c[2]) + slack
LinfOK(A, b, x, slack) ==
    LET o == MaxOf(ResAt(A, b, x, 4096)) IN
    \A c \in LinfCand(A, b) : c[2] # 0 =>
        o <= (4096 * MaxOf(ResAt(A, b, c[1], c[2]))) \div NAbs(c[2]) + slack

(* --- interpolation ---------------------------------------------------------------- *)
(* interpolation points as <<numerators>> over a common denominator *)
Points(n, z) == IF z THEN [i \in 1..n |-> i - 1 - ((n - 1) \div 2)]
                ELSE [i \in 1..n |-> LET k == i - 1 - (n \div 2) IN IF k >= 0 THEN k + 1 ELSE k]
PointsDen(n, z) == IF z THEN n ELSE n + 1
(* sin(pi k / 72) in 1/16384 *)
Sin72 == <<0, 715, 1428, 2139, 2845, 3546, 4240, 4927, 5604, 6270, 6924, 7565, 8192, 8803, 9397, 9974, 10531, 11069, 11585, 12080, 12551, 12998, 13421, 13818, 14189, 14533, 14849, 15137, 15396, 15626, 15826, 15996, 16135, 16244, 16322, 16368, 16384>>
RECURSIVE SinT(_)
SinT(k) == IF k < 0 THEN -SinT(-k) ELSE IF k >= 144 THEN SinT(k - 144)
           ELSE IF k > 72 THEN -SinT(k - 72)
           ELSE IF k <= 36 THEN Sin72[k + 1] ELSE Sin72[73 - k]
(* Lanczos kernel at m / 12 in 1/4096, a in {1, 2, 3}:                       *)
(* a sin(pi x) sin(pi x / a) / (pi^2 x^2);  144 / pi^2 / 4 = 3735 / 1024     *)
Lanczos(m, a) ==
    IF m = 0 THEN 4096
    ELSE IF NAbs(m) >= 12 * a THEN 0
    ELSE RDiv(RDiv(RDiv(a * SinT(6 * m) * SinT((6 * m) \div a), m * m), 128) * 3735, 131072)
(* filter for the resampling point m / 12 *)
LanFilter(m, a) == [k \in 1..(2 * a + 1) |-> Lanczos(12 * (k - a - 1) + m, a)]
(* product of filter values over the dimensions in 1/4096, normalised *)
RECURSIVE LanProd(_, _, _, _)
LanProd(ms, a, ix, d) ==
    IF d > Len(ms) THEN 4096
    ELSE LET f == LanFilter(ms[d], a)  s == Sum(f)
         IN RDiv(RDiv(f[ix[d] + 1] * 4096, s) * LanProd(ms, a, ix, d + 1), 4096)

(* --- Gaussian ------------------------------------------------------------------------ *)
(* exp(-k/32) in 1/32768 *)
ETab == <<31760, 30783, 28918, 25520, 19875, 12055, 4435, 600, 11, 0>>
RECURSIVE ExpMB(_, _, _)
ExpMB(k, j, acc) == IF k = 0 THEN acc ELSE IF j > 10 THEN 0
                    ELSE ExpMB(k \div 2, j + 1,
                               IF k % 2 = 1 THEN RDiv(acc * (ETab[j]), 32768) ELSE acc)
ExpM(k) == ExpMB(k, 1, 32768)
(* 32 x^2 / (2 sd^2) at sample i (0-based) of n on [-3, 3]; sd = sd2 / 2 *)
GArg(i, n, sd2) == IF n = 1 THEN (144 * 4) \div (sd2 * sd2)
                   ELSE (64 * (6 * i - 3 * (n - 1)) * (6 * i - 3 * (n - 1)))
                        \div ((n - 1) * (n - 1) * sd2 * sd2)
GW(n, sd2) == [i \in 1..n |-> ExpM(GArg(i - 1, n, sd2))]
RECURSIVE GProd(_, _, _)
GProd(ws, ix, d) == IF d > Len(ix) THEN 32768
                    ELSE (ws[d][ix[d] + 1] * GProd(ws, ix, d + 1)) \div 32768
(* values in 2^20 *)
GaussOK(A, shp, sd2) ==
    LET ws == [d \in 1..Len(shp) |-> GW(shp[d], sd2)]
        V(ix) == GProd(ws, ix, 1)
        W == Build(shp, V)
        T == Sum(W.v) IN
    /\ A.sh = shp
    /\ NAbs(Sum(A.v) - 1048576) <= Len(A.v) + 2
    /\ \A i \in 1..Len(A.v) :
         (* A.v / 2^20 = W / T *)
         NAbs((A.v[i] \div 16) * (T \div 64) - W.v[i] * 1024) <= 3 * (T \div 64) + (A.v[i] \div 16) + 6000

(* --- local contrast normalisation -------------------------------------------------- *)
(* 2-D weights for half width n in 1/4096, normalised *)
LcnW(n) == LET w == GW(2 * n + 1, 2)
               s == Sum(w)
           IN [i \in 1..(2 * n + 1) |-> RDiv(w[i] * 4096, s)]
(* weighted local mean in 1/256 of A (2-D sequence accessor At on <<i, j>>) *)
LMean(A, n, k) ==
    LET w == LcnW(n)  r == A.sh[1]  q == A.sh[2]
        V(i, j) == IF Len(A.sh) = 3 THEN At(A, <<SymIdx(i, r), SymIdx(j, q), k>>)
                   ELSE At(A, <<SymIdx(i, r), SymIdx(j, q)>>)
        Row(i, j) == Sum([d \in 1..(2 * n + 1) |-> w[d] * V(i, j + d - n - 1)])   \* 1/4096
        F(ix) == RDiv(Sum([d \in 1..(2 * n + 1) |->
                     w[d] * RDiv(Row(ix[1] + d - n - 1, ix[2]), 16)]), 4096)
    IN Build(<<r, q>>, F)

(* norm of the local differences in 1/64, at pixels whose window lies in A *)
LNorm(A, n, k, M, i, j) ==
    LET w == [d \in 1..(2 * n + 1) |-> RDiv(LcnW(n)[d], 4)]
        V(p, q) == IF Len(A.sh) = 3 THEN At(A, <<p, q, k>>) ELSE At(A, <<p, q>>)
        D(p, q) == RDiv(256 * V(p, q) - At(M, <<p, q>>), 16)
        Row(p) == RDiv(Sum([d \in 1..(2 * n + 1) |->
                     w[d] * D(p, j + d - n - 1) * D(p, j + d - n - 1)]), 1024)
    IN ISqrt(16 * RDiv(Sum([d \in 1..(2 * n + 1) |-> w[d] * Row(i + d - n - 1)]), 1024))

(* --- demosaicing ---------------------------------------------------------- *)
(* BGGR pattern: blue at even/even, red at odd/odd, green elsewhere           *)
(* the two sample indices of parity p between which index i lies, of n        *)
Nbrs(i, p, n) ==
    IF i % 2 = p THEN <<i, i>>
    ELSE LET lo == i - 1  hi == i + 1 IN
         <<IF lo < 0 THEN hi ELSE lo, IF hi >= n THEN lo ELSE hi>>
(* 4 times the bilinear interpolation of the samples of parity p *)
Bilin4(A, p, i, j) ==
    LET u == Nbrs(i, p, A.sh[1])  v == Nbrs(j, p, A.sh[2]) IN
    At(A, <<u[1], v[1]>>) + At(A, <<u[1], v[2]>>) + At(A, <<u[2], v[1]>>) + At(A, <<u[2], v[2]>>)
(* admissible values (4 times) of the green channel: interpolation along one  *)
(* direction or both                                                          *)
Green4(A, i, j) ==
    LET r == A.sh[1]  q == A.sh[2]
        hasv == i > 0 /\ i < r - 1
        hash == j > 0 /\ j < q - 1
        v == IF hasv THEN At(A, <<i - 1, j>>) + At(A, <<i + 1, j>>) ELSE 0
        h == IF hash THEN At(A, <<i, j - 1>>) + At(A, <<i, j + 1>>) ELSE 0
        cv == At(A, <<IF i = 0 THEN 1 ELSE r - 2, j>>)
        ch == At(A, <<i, IF j = 0 THEN 1 ELSE q - 2>>)
    IN IF (i + j) % 2 = 1 THEN {4 * At(A, <<i, j>>)}
       ELSE IF hasv /\ hash THEN {2 * v, 2 * h, v + h}
       ELSE IF hasv THEN {2 * v} ELSE IF hash THEN {2 * h}
       ELSE {2 * (cv + ch)}

(* --- tiledict --------------------------------------------------------------------------- *)
FloorSqrt(n) == ISqrt(n)
(* sizes: one <<rows, columns>> per atom; im 1.0 on the gaps *)
TileShape(sz) ==
    LET n == Len(sz)  vr == FloorSqrt(n)  vc == CDiv(n, vr)
        mr == VMaxAbs([i \in 1..n |-> sz[i][1]])
        mc == VMaxAbs([i \in 1..n |-> sz[i][2]])
    IN <<vr * mr + vr - 1, vc * mc + vc - 1, mr, mc, vc>>
(* atom number and position of a pixel: <<atom, r, c>>, atom 0 is the gap *)
TileAt(sz, i, j) ==
    LET t == TileShape(sz)
        l == i \div (t[3] + 1)  m == j \div (t[4] + 1)
        r == i % (t[3] + 1)     c == j % (t[4] + 1)
        k == l * t[5] + m + 1
    IN IF k <= Len(sz) /\ r < sz[NMin(k, Len(sz))][1] /\ c < sz[NMin(k, Len(sz))][2]
       THEN <<k, r, c>> ELSE <<0, 0, 0>>
=============================================================================
