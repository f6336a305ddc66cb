-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Small exact arithmetic kit over scaled 32-bit integers.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

NAbs(x) == IF x < 0 THEN -x ELSE x
NMax(a, b) == IF a >= b THEN a ELSE b
NMin(a, b) == IF a <= b THEN a ELSE b
Near(a, b, tol) == NAbs(a - b) <= tol

RECURSIVE ISqrtB(_, _, _)
ISqrtB(x, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET mid == (lo + hi) \div 2 IN
                          IF mid * mid <= x THEN ISqrtB(x, mid, hi)
                          ELSE ISqrtB(x, lo, mid)
ISqrt(x) == ISqrtB(x, 0, 46340)

RECURSIVE SumTo(_, _)
SumTo(v, i) == IF i = 0 THEN 0 ELSE SumTo(v, i - 1) + v[i]
Sum(v) == SumTo(v, Len(v))

Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
SumSq(v) == Dot(v, v)

VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VScale(c, a) == [i \in 1..Len(a) |-> c * a[i]]
(* nearest integer to x / d, d > 0 *)
RDiv(x, d) == (2 * x + d) \div (2 * d)
VRDiv(a, d) == [i \in 1..Len(a) |-> RDiv(a[i], d)]
VNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
RECURSIVE MaxTo(_, _)
MaxTo(v, i) == IF i = 1 THEN v[1] ELSE NMax(MaxTo(v, i - 1), v[i])
VMaxAbs(v) == IF Len(v) = 0 THEN 0 ELSE MaxTo([i \in 1..Len(v) |-> NAbs(v[i])], Len(v))

(* matrices are sequences of rows *)
MatVec(M, v) == [i \in 1..Len(M) |-> Dot(M[i], v)]
MatTVec(M, v) == [j \in 1..Len(M[1]) |-> Sum([i \in 1..Len(M) |-> M[i][j] * v[i]])]

(* Euclidean norm, in 1/16 of the unit of v (coarser for large vectors) *)
NormH(v) == LET m == VMaxAbs(v) * Len(v) IN
            IF m < 2800 THEN ISqrt(SumSq(v) * 256)
            ELSE IF m < 46000 THEN ISqrt(SumSq(v)) * 16
            ELSE IF m < 5000000
              THEN ISqrt(SumSq([i \in 1..Len(v) |-> v[i] \div 128])) * 2048
            ELSE 67108864
=============================================================================
