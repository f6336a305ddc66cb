-------------------------------- MODULE Four --------------------------------
(***************************************************************************)
(* Discrete Fourier and cosine transforms, circular convolution, finite     *)
(* differences and the Tikhonov filter on small arrays.  Transform values   *)
(* are in 1/4096; data are integers.                                        *)
(***************************************************************************)
EXTENDS Arr

U == 4096
(* quarter waves of cos(2 pi j / D), in 1/4096 *)
Q48 == <<4096, 4061, 3956, 3784, 3547, 3250, 2896, 2493, 2048, 1567, 1060, 535, 0>>
Q20 == <<4096, 3896, 3314, 2408, 1266, 0>>
Q28 == <<4096, 3993, 3690, 3202, 2554, 1777, 911, 0>>
RECURSIVE CosQ(_, _, _)
CosQ(tab, D, j) ==             \* 0 <= j < D, 4 | D
    IF 2 * j > D THEN CosQ(tab, D, D - j)
    ELSE IF 4 * j > D THEN -CosQ(tab, D, D \div 2 - j)
    ELSE tab[j + 1]
(* cos(2 pi j / D) for D dividing 48, 20 or 28 *)
CosF(D, j) == LET i == j % D IN
    IF 48 % D = 0 THEN CosQ(Q48, 48, i * (48 \div D))
    ELSE IF 20 % D = 0 THEN CosQ(Q20, 20, i * (20 \div D))
    ELSE CosQ(Q28, 28, i * (28 \div D))
SinF(D, j) == IF 48 % D = 0 THEN CosQ(Q48, 48, (j * (48 \div D) - 12) % 48)
    ELSE IF 20 % D = 0 THEN CosQ(Q20, 20, (j * (20 \div D) - 5) % 20)
    ELSE CosQ(Q28, 28, (j * (28 \div D) - 7) % 28)
RD(x) == RDiv(x, U)
(* product of exp(-2 pi i n k / N) over the transformed dimensions; sgn = 1 *)
(* for the inverse                                                          *)
TwMul(x, y) == <<RD(x[1] * y[1] - x[2] * y[2]), RD(x[1] * y[2] + x[2] * y[1])>>
RECURSIVE Tw(_, _, _, _, _)
Tw(sh, ds, n, k, sgn) ==
    IF ds = <<>> THEN <<U, 0>>
    ELSE LET d == ds[1]
             t == <<CosF(sh[d], n[d] * k[d]), sgn * SinF(sh[d], n[d] * k[d])>>
             r == Tw(sh, Tail(ds), n, k, sgn)
         IN IF t = <<U, 0>> THEN r ELSE IF r = <<U, 0>> THEN t ELSE TwMul(r, t)
InSeq(s, x) == \E i \in 1..Len(s) : s[i] = x
(* array cropped or zero-padded to length s[i] on dimension ds[i] *)
FitShape(sh, s, ds) == [d \in 1..Len(sh) |->
     IF InSeq(ds, d) THEN s[CHOOSE i \in 1..Len(ds) : ds[i] = d] ELSE sh[d]]
Fit(A, sh2) == Build(sh2, LAMBDA ix : IF InRange(A.sh, ix) THEN At(A, ix) ELSE 0)
Same(sh, ds, n, k) == \A d \in 1..Len(sh) : InSeq(ds, d) \/ n[d] = k[d]
(* DFT coefficient at frequency k of the complex array <<re, im>> *)
RECURSIVE DftSum(_, _, _, _, _, _, _)
DftSum(re, im, ds, k, sgn, i, acc) ==
    IF i > Len(re.v) THEN acc
    ELSE LET n == Unravel(re.sh, i - 1) IN
         IF ~Same(re.sh, ds, n, k) \/ (re.v[i] = 0 /\ im.v[i] = 0)
           THEN DftSum(re, im, ds, k, sgn, i + 1, acc)
           ELSE LET t == Tw(re.sh, ds, n, k, sgn) IN
                DftSum(re, im, ds, k, sgn, i + 1,
                       <<acc[1] + re.v[i] * t[1] - im.v[i] * t[2],
                         acc[2] + re.v[i] * t[2] + im.v[i] * t[1]>>)
Dft(re, im, ds, k, sgn) == DftSum(re, im, ds, k, sgn, 1, <<0, 0>>)
AbsSum(v) == Sum([i \in 1..Len(v) |-> NAbs(v[i])])
(* Fr, Fi (1/4096) is the DFT of re + i im over dimensions ds, restricted   *)
(* to osh (the half spectrum in the case of the real transform)             *)
DftOK(Fr, Fi, re, im, ds, osh, sgn, scl) ==
    /\ Fr.sh = osh /\ Fi.sh = osh
    /\ LET tol == 2 + 3 * (AbsSum(re.v) + AbsSum(im.v)) IN
       \A i \in 1..Prod(osh) :
         LET f == Dft(re, im, ds, Unravel(osh, i - 1), sgn) IN
         Near(scl * Fr.v[i], f[1], tol + scl) /\ Near(scl * Fi.v[i], f[2], tol + scl)
HalfShape(sh, d) == [sh EXCEPT ![d] = @ \div 2 + 1]

(* orthonormal DCT-II over dimensions ds: squares of the scale factors are  *)
(* rational, so compare f(k) = sqrt(prod c_d) sum ...                       *)
RECURSIVE DctW(_, _, _, _)
DctW(sh, ds, n, k) == IF ds = <<>> THEN U
    ELSE LET d == ds[1]  t == CosF(4 * sh[d], k[d] * (2 * n[d] + 1)) IN
         RD(DctW(sh, Tail(ds), n, k) * t)
DctScl(sh, ds, k) ==   \* square of the scale as <<numerator, denominator>>
    LET nz == SelectSeq(ds, LAMBDA d : k[d] # 0) IN
    <<IF Len(nz) = 0 THEN 1 ELSE IF Len(nz) = 1 THEN 2 ELSE IF Len(nz) = 2 THEN 4 ELSE 8,
      Prod([i \in 1..Len(ds) |-> sh[ds[i]]])>>
DctRaw(A, ds, k) == Sum([i \in 1..Len(A.v) |->
    LET n == Unravel(A.sh, i - 1) IN
    IF Same(A.sh, ds, n, k) /\ A.v[i] # 0 THEN A.v[i] * DctW(A.sh, ds, n, k) ELSE 0])
DctOK(F, A, ds) ==
    /\ F.sh = A.sh
    /\ \A i \in 1..Len(A.v) :
        LET k == Unravel(A.sh, i - 1)
            c == DctScl(A.sh, ds, k)
            r == ISqrt((c[1] * 16777216) \div c[2])    \* 1/4096
            raw == DctRaw(A, ds, k)
            \* raw * r / 4096 without overflow
            e == ((raw \div 64) * r) \div 64
        IN Near(F.v[i], e, 80 + 4 * AbsSum(A.v))

(* circular convolution over dims ds with common sizes; broadcasting on the *)
(* other dimensions; shifted by the origin                                   *)
ConvAt(A, B, osh, ds, org, ix) ==
    Sum([i \in 1..Len(A.v) |->
       LET n == Unravel(A.sh, i - 1) IN
       IF A.v[i] = 0 \/ ~(\A d \in 1..Len(osh) : InSeq(ds, d) \/ A.sh[d] = 1 \/ n[d] = ix[d]) THEN 0
       ELSE LET jx == [d \in 1..Len(osh) |->
                  IF InSeq(ds, d) THEN (ix[d] + org[CHOOSE t \in 1..Len(ds) : ds[t] = d] - n[d]) % osh[d]
                  ELSE IF B.sh[d] = 1 THEN 0 ELSE ix[d]] IN
            IF InRange(B.sh, jx) THEN A.v[i] * At(B, jx) ELSE 0])
ConvShape(A, B) == [d \in 1..Len(A.sh) |-> NMax(A.sh[d], B.sh[d])]
Conv(A, B, ds, org) == LET osh == ConvShape(A, B) IN
    Build(osh, LAMBDA ix : ConvAt(A, B, osh, ds, org, ix))

(* finite differences along dimension d *)
Nb(A, ix, d, o) == At(A, [ix EXCEPT ![d] = @ + o])
Grad(A, d, zp) ==
    IF zp THEN Build([A.sh EXCEPT ![d] = @ + 1],
                LAMBDA ix : (IF ix[d] < A.sh[d] THEN At(A, ix) ELSE 0)
                            - (IF ix[d] > 0 THEN Nb(A, ix, d, -1) ELSE 0))
    ELSE Build(A.sh, LAMBDA ix : IF ix[d] = A.sh[d] - 1 THEN 0 ELSE Nb(A, ix, d, 1) - At(A, ix))
(* the transpose, from the definition of the operator *)
GradT(A, d, zp) ==
    IF zp THEN Build([A.sh EXCEPT ![d] = @ - 1], LAMBDA ix : At(A, ix) - Nb(A, ix, d, 1))
    ELSE Build(A.sh, LAMBDA ix : (IF ix[d] > 0 THEN Nb(A, ix, d, -1) ELSE 0)
                                 - (IF ix[d] < A.sh[d] - 1 THEN At(A, ix) ELSE 0))
(* circular backward difference *)
CDiff(A, d) == Build(A.sh, LAMBDA ix : At(A, ix) - At(A, [ix EXCEPT ![d] = (@ - 1) % A.sh[d]]))

(* symmetric padding of the first two dimensions *)
SymIdx(i, n) == LET j == i % (2 * n) IN IF j < n THEN j ELSE 2 * n - 1 - j
SymPad(A, p) == Build([d \in 1..Len(A.sh) |-> IF d <= 2 THEN A.sh[d] + 2 * p ELSE A.sh[d]],
    LAMBDA ix : At(A, [d \in 1..Len(A.sh) |-> IF d <= 2 THEN SymIdx(ix[d] - p, A.sh[d]) ELSE ix[d]]))
(* (1 + lmbda (G_r^T G_r + G_c^T G_c)) X = s, X in 1/4096, lmbda in quarters *)
Lap1(X, ix, d) == 2 * At(X, ix) - At(X, [ix EXCEPT ![d] = (@ - 1) % X.sh[d]])
                                - At(X, [ix EXCEPT ![d] = (@ + 1) % X.sh[d]])
TikOK(X, s, l4) ==
    /\ X.sh = s.sh
    /\ \A i \in 1..Len(s.v) : LET ix == Unravel(s.sh, i - 1) IN
         Near(4 * X.v[i] + l4 * (Lap1(X, ix, 1) + Lap1(X, ix, 2)), 4 * U * s.v[i], 6 + 5 * l4)
=============================================================================
