------------------------------- MODULE Solvers -------------------------------
(***************************************************************************)
(* The optimisation problems solved by the concrete solver classes, as      *)
(*     min_x  sum_j 1/2 |M_j x - t_j|^2_{q_j}  +  g(y)                      *)
(*     s.t.   A x + bs * y_b = c                                            *)
(* and the steps of the algorithms applied to them (scaled form ADMM with   *)
(* over-relaxation, proximal gradient).  Operators are sparse integer       *)
(* matrices built index by index from the documented problem; vectors are   *)
(* flattened arrays in units of 1/4096; weights q are in 1/16.              *)
(***************************************************************************)
EXTENDS ConvRep
UU == 4096
(* v * p / q for |v| < 2^16 (larger v loses low bits), p >= 0, q > 0 *)
RECURSIVE MD(_, _, _)
MD(v, p, q) ==
    IF p = 0 \/ v = 0 THEN 0
    ELSE IF p > 16000 THEN MD(v, RDiv(p, 2), NMax(1, RDiv(q, 2)))
    ELSE IF NAbs(v) > 1000000000 \div p THEN 16 * MD(RDiv(v, 16), p, q)
    ELSE RDiv(v * p, q)
(* square of a value in 1/4096, in 1/1024 *)
Sq(v) == LET w == NAbs(v)  a == w \div 128  b == w % 128 IN
         a * a + (256 * a * b + b * b) \div 16384
(* euclidean norm in the unit of the vector *)
Nrm(v) ==
    IF Len(v) = 0 THEN 0
    ELSE LET sc == VMaxAbs(v) \div ISqrt(2000000000 \div Len(v)) + 1
             q == IF sc = 1 THEN SumSq(v) ELSE SumSq([i \in 1..Len(v) |-> RDiv(v[i], sc)])
         IN IF q < 8000000 THEN RDiv(sc * ISqrt(256 * q), 16) ELSE sc * ISqrt(q)
(* relative accuracy of Nrm: 1/300 *)

(* ---- sparse operators: rows (and columns) of <<index, value>> ----------- *)
RECURSIVE AddRow(_, _, _, _)
AddRow(acc, i, row, k) == IF k > Len(row) THEN acc
    ELSE AddRow([acc EXCEPT ![row[k][1]] = Append(@, <<i, row[k][2]>>)], i, row, k + 1)
RECURSIVE TrAcc(_, _, _)
TrAcc(acc, r, i) == IF i > Len(r) THEN acc ELSE TrAcc(AddRow(acc, i, r[i], 1), r, i + 1)
Oper(nc, rf(_), nr) ==
    LET r == TLCEval([i \in 1..nr |-> SelectSeq(rf(i), LAMBDA e : e[2] # 0)]) IN
    [nr |-> nr, nc |-> nc, r |-> r, fr |-> FALSE,
     t |-> TLCEval(TrAcc([j \in 1..nc |-> <<>>], r, 1))]
RECURSIVE SpDot(_, _, _)
SpDot(row, x, k) == IF k > Len(row) THEN 0 ELSE row[k][2] * x[row[k][1]] + SpDot(row, x, k + 1)
(* entries in 1/4096 if M.fr: the vector is split into high and low parts    *)
RECURSIVE SpDotH(_, _, _)
SpDotH(row, x, k) == IF k > Len(row) THEN 0 ELSE row[k][2] * (x[row[k][1]] \div 64) + SpDotH(row, x, k + 1)
RECURSIVE SpDotL(_, _, _)
SpDotL(row, x, k) == IF k > Len(row) THEN 0 ELSE row[k][2] * (x[row[k][1]] % 64) + SpDotL(row, x, k + 1)
RowDot(M, row, x) == IF M.fr THEN RDiv(SpDotH(row, x, 1) + RDiv(SpDotL(row, x, 1), 64), 64) ELSE SpDot(row, x, 1)
Ap(M, x) == TLCEval([i \in 1..M.nr |-> RowDot(M, M.r[i], x)])
ApT(M, y) == TLCEval([j \in 1..M.nc |-> RowDot(M, M.t[j], y)])
RECURSIVE RowAbs(_, _)
RowAbs(row, k) == IF k > Len(row) THEN 0 ELSE NAbs(row[k][2]) + RowAbs(row, k + 1)
FrUp(M, v) == IF M.fr THEN v \div 4096 + 1 ELSE v
MaxRow(M) == FrUp(M, SeqMax([i \in 1..M.nr |-> RowAbs(M.r[i], 1)]))
MaxCol(M) == FrUp(M, SeqMax([j \in 1..M.nc |-> RowAbs(M.t[j], 1)]))
MaxRowN(M) == SeqMax([i \in 1..M.nr |-> Len(M.r[i])])
MaxColN(M) == SeqMax([j \in 1..M.nc |-> Len(M.t[j])])
(* entries of M in 1/4096 (those of the rows not in rs are integers) *)
Frac(M, rs) ==
    [M EXCEPT !.fr = TRUE,
       !.r = TLCEval([i \in 1..M.nr |-> IF i \in rs THEN M.r[i] ELSE [k \in 1..Len(M.r[i]) |->
                 <<M.r[i][k][1], 4096 * M.r[i][k][2]>>]]),
       !.t = TLCEval([j \in 1..M.nc |-> [k \in 1..Len(M.t[j]) |->
                 IF M.t[j][k][1] \in rs THEN M.t[j][k] ELSE <<M.t[j][k][1], 4096 * M.t[j][k][2]>>]])]
(* effect of the rounded entries of M on M x, and on M'(M x - t) *)
FrErr(M, mx) == IF M.fr THEN MaxRowN(M) * (mx \div 8192 + 1) + 1 ELSE 0
FrErrG(M, mx, mr) == IF M.fr THEN MaxCol(M) * FrErr(M, mx) + MaxColN(M) * (mr \div 8192 + 1) + 1 ELSE 0
Eye(n) == [nr |-> n, nc |-> n, fr |-> FALSE, r |-> [i \in 1..n |-> << <<i, 1>> >>],
           t |-> [i \in 1..n |-> << <<i, 1>> >>]]
Shift(row, d) == [k \in 1..Len(row) |-> <<row[k][1] + d, row[k][2]>>]
Stack(A, B) == [nr |-> A.nr + B.nr, nc |-> A.nc, fr |-> FALSE, r |-> A.r \o B.r,
                t |-> TLCEval([j \in 1..A.nc |-> A.t[j] \o Shift(B.t[j], A.nr)])]
RECURSIVE StackAll(_)
StackAll(s) == IF Len(s) = 1 THEN s[1] ELSE Stack(s[1], StackAll(Tail(s)))
RowScale(M, w) == [M EXCEPT !.r = [i \in 1..M.nr |-> [k \in 1..Len(M.r[i]) |->
                                 <<M.r[i][k][1], M.r[i][k][2] * w[i]>>]],
                            !.t = [j \in 1..M.nc |-> [k \in 1..Len(M.t[j]) |->
                                 <<M.t[j][k][1], M.t[j][k][2] * w[M.t[j][k][1]]>>]]]
Const(n, v) == [i \in 1..n |-> v]
Lift(v) == [i \in 1..Len(v) |-> UU * v[i]]

(* ---- the operators of the problems -------------------------------------- *)
Wrp(a, b, Nv) == [d \in 1..Len(Nv) |-> (a[d] - b[d]) % Nv[d]]
(* convolutional synthesis with D (shape nvD \o <<Cd, 1, M>>) of x (Nv \o   *)
(* <<Cx, K, M>>): output Nv \o <<C, K, 1>>                                   *)
ConvOp(D, Nv, C, K) ==
    LET n == Len(Nv)  Cd == D.sh[n + 1]  M == D.sh[n + 3]
        xs == Nv \o <<IF Cd = 1 THEN C ELSE 1, K, M>>
        os == Nv \o <<C, K>>
        taps == [q \in 1..Prod(Take(D.sh, n)) |-> Unravel(Take(D.sh, n), q - 1)]
        nt == Len(taps)
        row(i) == LET ix == Unravel(os, i - 1)  c == ix[n + 1]  k == ix[n + 2] IN
            [e \in 1..(nt * M) |->
              LET q == taps[(e - 1) \div M + 1]  m == (e - 1) % M IN
              <<Ravel(xs, Wrp(ix, q, Nv) \o <<IF Cd = 1 THEN c ELSE 0, k, m>>) + 1,
                At(D, q \o <<IF Cd = 1 THEN 0 ELSE c, 0, m>>)>>]
    IN Oper(Prod(xs), row, Prod(os))
(* the same sum as a function of the dictionary: Z of shape Nv \o <<Cz, K,  *)
(* M>>, dictionary of shape Nv \o <<Cd, 1, M>> or, if blk, one copy for each *)
(* k (last index)                                                            *)
DictOp(Z, Nv, C, Cd, blk) ==
    LET n == Len(Nv)  Cz == Z.sh[n + 1]  K == Z.sh[n + 2]  M == Z.sh[n + 3]
        ds == Nv \o <<Cd, 1, M>> \o (IF blk THEN <<K>> ELSE <<>>)
        os == Nv \o <<C, K>>
        nn == Prod(Nv)
        row(i) == LET ix == Unravel(os, i - 1)  c == ix[n + 1]  k == ix[n + 2] IN
            [e \in 1..(nn * M) |->
              LET p == Unravel(Nv, (e - 1) \div M)  m == (e - 1) % M IN
              <<Ravel(ds, p \o <<IF Cd = 1 THEN 0 ELSE c, 0, m>> \o (IF blk THEN <<k>> ELSE <<>>)) + 1,
                At(Z, Wrp(ix, p, Nv) \o <<IF Cz = 1 THEN 0 ELSE c, k, m>>)>>]
    IN Oper(Prod(ds), row, Prod(os))
(* product of B (C x Cb) with the channel axis (dimension d) of an array of *)
(* shape xs                                                                  *)
ChanOp(B, xs, d) ==
    LET os == [xs EXCEPT ![d] = B.sh[1]]
        row(i) == LET ix == Unravel(os, i - 1) IN
            [b \in 1..B.sh[2] |-> <<Ravel(xs, [ix EXCEPT ![d] = b - 1]) + 1, At(B, <<ix[d], b - 1>>)>>]
    IN Oper(Prod(xs), row, Prod(os))
(* composition L R *)
Comp(L, R) ==
    LET RECURSIVE Mrg(_, _)
        Mrg(row, k) == IF k > Len(row) THEN <<>>
                       ELSE LET s == R.r[row[k][1]] IN
                            [j \in 1..Len(s) |-> <<s[j][1], row[k][2] * s[j][2]>>] \o Mrg(row, k + 1)
    IN Oper(R.nc, LAMBDA i : Mrg(L.r[i], 1), L.nr)
LeftMul(D, m) ==      \* D (p x n) applied to n x m
    LET n == D.sh[2]
        row(i) == LET a == (i - 1) \div m  b == (i - 1) % m IN
                  [j \in 1..n |-> <<(j - 1) * m + b + 1, At(D, <<a, j - 1>>)>>]
    IN Oper(n * m, row, D.sh[1] * m)
RightMul(Z, p) ==     \* Z (m x n) applied on the right to p x m
    LET m == Z.sh[1]  n == Z.sh[2]
        row(i) == LET a == (i - 1) \div n  b == (i - 1) % n IN
                  [j \in 1..m |-> <<a * m + j, At(Z, <<j - 1, b>>)>>]
    IN Oper(p * m, row, p * n)
(* circular backward difference along dimension d *)
CGrad(xs, d) ==
    Oper(Prod(xs), LAMBDA i : LET ix == Unravel(xs, i - 1)
                                  j == Ravel(xs, [ix EXCEPT ![d] = (@ - 1) % xs[d]]) + 1 IN
         IF j = i THEN <<>> ELSE << <<i, 1>>, <<j, -1>> >>, Prod(xs))
(* forward difference, zero at the end *)
FGrad(xs, d) ==
    Oper(Prod(xs), LAMBDA i : LET ix == Unravel(xs, i - 1) IN
         IF ix[d] = xs[d] - 1 THEN <<>>
         ELSE << <<i, -1>>, <<Ravel(xs, [ix EXCEPT ![d] = @ + 1]) + 1, 1>> >>, Prod(xs))
(* interleave operators with the same shape along a new last index *)
Inter(ops) ==
    LET L == Len(ops) IN
    Oper(ops[1].nc, LAMBDA i : ops[((i - 1) % L) + 1].r[(i - 1) \div L + 1], L * ops[1].nr)
(* sum of operators *)
OpAdd(A, B) == Oper(A.nc, LAMBDA i : A.r[i] \o B.r[i], A.nr)
(* discrete Laplacian with reflecting ends along dims ds *)
RECURSIVE Lapl(_, _)
Lapl(xs, ds) ==
    LET d == ds[1]
        L == Oper(Prod(xs), LAMBDA i : LET ix == Unravel(xs, i - 1) IN
               (IF ix[d] > 0 THEN << <<Ravel(xs, [ix EXCEPT ![d] = @ - 1]) + 1, 1>>, <<i, -1>> >> ELSE <<>>)
               \o (IF ix[d] < xs[d] - 1 THEN << <<Ravel(xs, [ix EXCEPT ![d] = @ + 1]) + 1, 1>>, <<i, -1>> >>
                   ELSE <<>>), Prod(xs))
    IN IF Len(ds) = 1 THEN L ELSE OpAdd(L, Lapl(xs, Tail(ds)))
(* circular convolution of an array of shape xs with kernel A over dims ds  *)
(* (kernel dims given in the same order)                                     *)
KernOp(A, xs, ds) ==
    LET nt == Prod(A.sh)
        PosIn(d) == IF \E t \in 1..Len(ds) : ds[t] = d THEN CHOOSE t \in 1..Len(ds) : ds[t] = d ELSE 0
        row(i) == LET ix == Unravel(xs, i - 1) IN
            [e \in 1..nt |-> LET q == Unravel(A.sh, e - 1) IN
               <<Ravel(xs, [d \in 1..Len(xs) |-> IF PosIn(d) = 0 THEN ix[d]
                                               ELSE (ix[d] - q[PosIn(d)]) % xs[d]]) + 1, A.v[e]>>]
    IN Oper(Prod(xs), row, Prod(xs))

(* ---- groups of indices of an array: one group for each index of the       *)
(* dims not in ds                                                            *)
Groups(sh, ds, off) ==
    LET ks == KeepShape(sh, ds)
        rs == [d \in 1..Len(sh) |-> IF d \in ds THEN sh[d] ELSE 1]
    IN TLCEval([g \in 1..Prod(ks) |->
         LET key == Unravel(ks, g - 1) IN
         [j \in 1..Prod(rs) |-> LET jx == Unravel(rs, j - 1) IN
            off + 1 + Ravel(sh, [d \in 1..Len(sh) |-> key[d] + jx[d]])]])
(* values of a broadcast array for each element of an array of shape sh *)
Spread(W, sh) == TLCEval([i \in 1..Prod(sh) |-> BAt(W, Unravel(sh, i - 1))])
Rng(a, n) == [i \in 1..n |-> a + i]

(***************************************************************************)
(* Values of the proximal operators.  v and the result in 1/4096 (groups    *)
(* only), thresholds in 1/4096.                                              *)
(***************************************************************************)
Soft(v, a) == IF NAbs(v) <= a THEN 0 ELSE IF v > 0 THEN v - a ELSE v + a
Shrink(v, a) ==      \* v: sequence
    LET n == Nrm(v) IN IF n <= a THEN Const(Len(v), 0)
                       ELSE [i \in 1..Len(v) |-> v[i] - MD(v[i], a, n)]
RECURSIVE L1Thr(_, _, _, _)
L1Thr(v, r, lo, hi) ==   \* threshold such that the l1 norm is r
    IF hi - lo <= 1 THEN hi
    ELSE LET m == (lo + hi) \div 2 IN
         IF Sum([i \in 1..Len(v) |-> NMax(NAbs(v[i]) - m, 0)]) > r THEN L1Thr(v, r, m, hi)
         ELSE L1Thr(v, r, lo, m)
ProjL1(v, r) == IF Sum([i \in 1..Len(v) |-> NAbs(v[i])]) <= r THEN v
                ELSE LET t == L1Thr(v, r, 0, VMaxAbs(v)) IN [i \in 1..Len(v) |-> Soft(v[i], t)]
ProjL2(v, r) == LET n == Nrm(v) IN IF n <= r THEN v ELSE [i \in 1..Len(v) |-> MD(v[i], r, n)]
ProjB(v, r, ctr) == IF Len(ctr) = 0 THEN ProjL2(v, r)
                    ELSE VAdd(ctr, ProjL2(TLCEval(VSub(v, ctr)), r))
Ctr(p, g) == IF Len(p.ctr) = 0 THEN <<>> ELSE p.ctr[g]
(* unit norm, zero mean over each part, zero outside: parts is a sequence of *)
(* sequences of positions (of v)                                             *)
Centred(v, parts, zm, nn) ==
    LET idx == UNION {{parts[c][j] : j \in 1..Len(parts[c])} : c \in 1..Len(parts)}
        mean == [c \in 1..Len(parts) |-> IF zm THEN
                   RDiv(Sum([j \in 1..Len(parts[c]) |-> v[parts[c][j]]]), Len(parts[c])) ELSE 0]
    IN TLCEval([i \in 1..Len(v) |-> IF i \notin idx THEN 0
              ELSE LET c == CHOOSE c \in 1..Len(parts) : \E j \in 1..Len(parts[c]) : parts[c][j] = i
                       z == v[i] - mean[c] IN IF nn /\ z < 0 THEN 0 ELSE z])
Unit(w) == LET n == Nrm(w) IN IF n = 0 THEN w ELSE TLCEval([i \in 1..Len(w) |-> MD(w[i], UU, n)])
Feas(v, parts, zm, nn) == Unit(Centred(v, parts, zm, nn))
RECURSIVE CatAll(_)
CatAll(s) == IF Len(s) = 0 THEN <<>> ELSE s[1] \o CatAll(Tail(s))
Sub(v, ix) == [j \in 1..Len(ix) |-> v[ix[j]]]
NormTol(v) == NMax(4, VMaxAbs(v) \div 200)

(* Pieces of g.  thr(w) is lam w / rho in 1/4096.                            *)
(*  l1:  ix, w (1/4 units, per element), lam (1/16)                          *)
(*  l21: gs groups, w per group (1/4), lam                                   *)
(*  sl:  gs, wx per element of each group (seq), lam, w per group, mu        *)
(*  pl1, pl2: gs, rad (1/4096)                                               *)
(*  quad: ix, w (1/16): minimiser of w/2 y^2 + rho/2 (y - v)^2               *)
(*  dict: gs (one for each filter), parts, zm, nn                            *)
(*  free: ix (y = v);  zero: ix                                              *)
(* rho in 1/256                                                              *)
Thr(lam, w, rho) == MD(lam * w * 64, 256, rho)     \* lam w / 64 * 4096 / rho
SlVal(v, gl, w, p, rho) ==
    Shrink([j \in 1..Len(v) |-> Soft(v[j], Thr(p.lam, w[j], rho))], Thr(p.mu, gl, rho))
(* expected value and tolerance of piece p, group g (or the whole piece) *)
PieceOK(p, y, v, rho, tol, nn, zb) ==
    LET post(i, x) == IF i \in zb THEN 0 ELSE IF nn /\ x < 0 THEN 0 ELSE x
        cmp(ix, e, t) == \A j \in 1..Len(ix) : Near(y[ix[j]], post(ix[j], e[j]), t)
    IN CASE p.k = "l1" ->
              \A j \in 1..Len(p.ix) :
                 Near(y[p.ix[j]], post(p.ix[j], Soft(v[p.ix[j]], Thr(p.lam, p.w[j], rho))), tol)
         [] p.k = "l21" ->
              \A g \in 1..Len(p.gs) : LET u == TLCEval(Sub(v, p.gs[g])) IN
                 cmp(p.gs[g], Shrink(u, Thr(p.lam, p.w[g], rho)), tol + NormTol(u))
         [] p.k = "sl" ->
              \A g \in 1..Len(p.gs) : LET u == TLCEval(Sub(v, p.gs[g])) IN
                 cmp(p.gs[g], SlVal(u, p.w[g], p.wx[g], p, rho), tol + NormTol(u))
         [] p.k = "pl1" ->
              \A g \in 1..Len(p.gs) : LET u == TLCEval(Sub(v, p.gs[g])) IN
                 cmp(p.gs[g], ProjL1(u, p.rad), 2 * tol + 2)
         [] p.k = "pl2" ->
              \A g \in 1..Len(p.gs) : LET u == TLCEval(Sub(v, p.gs[g])) IN
                 cmp(p.gs[g], ProjB(u, p.rad, Ctr(p, g)), tol + NormTol(u) + (IF Len(p.ctr) = 0 THEN 0 ELSE NormTol(p.ctr[g])))
         [] p.k = "quad" ->     \* (w/16 + rho/256) y = rho/256 v
              \A j \in 1..Len(p.ix) :
                 Near(y[p.ix[j]], MD(v[p.ix[j]], rho, 16 * p.w[j] + rho), tol + 2)
         [] p.k = "grpq" ->     \* 1/2 |sum_g y_g - t|^2_q, g = 1..ng
              \A i \in 1..p.nr :
                 LET d == RDiv(p.q[i] * (Sum([g \in 1..p.ng |-> y[(g - 1) * p.nr + i]]) - p.t[i]), 16) IN
                 \A g \in 1..p.ng : LET j == (g - 1) * p.nr + i IN
                    Near(RDiv((y[j] - v[j]) * rho, 256) + d, 0, ((tol + 1) * rho) \div 256 + (p.q[i] * (p.ng + 1)) \div 16 + 3)
         [] p.k = "dict" ->
              \A g \in 1..Len(p.gs) :
                 LET w == TLCEval(Centred(Sub(v, p.gs[g]), p.parts[g], p.zm, p.nn)) IN
                 \* a vector that is null up to rounding may be scaled either way
                 cmp(p.gs[g], Unit(w), IF VMaxAbs(w) < 200 THEN 2 * UU
                                       ELSE tol + 24 + (tol * 6000) \div VMaxAbs(w))
         [] p.k = "free" -> \A j \in 1..Len(p.ix) : Near(y[p.ix[j]], post(p.ix[j], v[p.ix[j]]), tol)
         [] p.k = "zero" -> \A j \in 1..Len(p.ix) : Near(y[p.ix[j]], 0, 1)
         [] OTHER -> FALSE

(* value (1/1024) of the unweighted norm in a piece *)
PieceVal(p, z) ==
    CASE p.k = "l1" -> Sum([j \in 1..Len(p.ix) |-> RDiv(p.w[j] * NAbs(z[p.ix[j]]), 16)])
      [] p.k = "l21" -> Sum([g \in 1..Len(p.gs) |-> RDiv(p.w[g] * Nrm(Sub(z, p.gs[g])), 16)])
      [] p.k = "slx" -> Sum([g \in 1..Len(p.gs) |-> Sum([j \in 1..Len(p.gs[g]) |->
                               RDiv(p.wx[g][j] * NAbs(z[p.gs[g][j]]), 16)])])
      [] p.k = "sl" -> Sum([g \in 1..Len(p.gs) |-> RDiv(p.w[g] * Nrm(Sub(z, p.gs[g])), 16)])
      [] p.k = "quad" -> Sum([j \in 1..Len(p.ix) |-> RDiv(p.w[j] * Sq(z[p.ix[j]]), 32)])
(* distance from the set (1/1024) *)
Dist(p, z) ==
    LET d(g) == LET u == TLCEval(Sub(z, p.gs[g])) IN
                VSub(u, TLCEval(CASE p.k = "pl1" -> ProjL1(u, p.rad)
                                  [] p.k = "pl2" -> ProjB(u, p.rad, Ctr(p, g))
                                  [] p.k = "dict" -> Feas(u, p.parts[g], p.zm, p.nn)))
        all == TLCEval(CatAll([g \in 1..Len(p.gs) |-> d(g)]))
    IN RDiv(Nrm(all), 4)
(* quadratic term j of the problem at x (1/1024) *)
QVal(P, j, x) == LET f == P.f[j]  r == Ap(f.op, x) IN
    Sum([i \in 1..Len(r) |-> RDiv(f.q[i] * Sq(r[i] - f.t[i]), 32)])

(***************************************************************************)
(* Nuclear and spectral norm of a matrix with two rows (m: the rows one     *)
(* after the other, in 1/4096; results in 1/256): the product of the        *)
(* singular values is the norm of the vector of 2 x 2 minors.               *)
(***************************************************************************)
SMD(v, p, q) == IF p < 0 THEN -MD(v, -p, q) ELSE MD(v, p, q)
Minors(m, n) == CatAll([j \in 1..n |-> [k \in 1..(n - j) |->
                   SMD(m[j], m[n + j + k], UU) - SMD(m[j + k], m[n + j], UU)]])
NucNorm(m, n) == LET f == RDiv(Nrm(m), 16)  p == Nrm(Minors(m, n)) IN
                 ISqrt(f * f + 32 * p)
SpecNorm(m, n) == LET f == RDiv(Nrm(m), 16)  p == Nrm(Minors(m, n)) IN
                  (ISqrt(f * f + 32 * p) + ISqrt(NMax(0, f * f - 32 * p))) \div 2
(* x = argmin |x|_* + rho/2 |x - v|^2: the scaled difference is a           *)
(* subgradient of the nuclear norm                                           *)
NucStepOK(n, x, v, rho) ==
    LET a == MD(UU, 256, rho)  e == TLCEval(VSub(v, x))
        xc == TLCEval(VRDiv(x, 16))  ec == TLCEval(VRDiv(e, 16))
        mul == RDiv(a, 16)
    IN /\ SpecNorm(e, n) <= mul + 6 + mul \div 20
       /\ Near(Sum([i \in 1..Len(x) |-> xc[i] * ec[i]]), mul * NucNorm(x, n),
               2 * Sum([i \in 1..Len(x) |-> NAbs(xc[i]) + NAbs(ec[i])]) + 4 * mul + 16)

(* ---- steps -------------------------------------------------------------- *)
RMul(v, rho) == IF rho >= 256 THEN v * (rho \div 256) ELSE RDiv(v * rho, 256)
(* gradient of the quadratic terms, in 1/4096 *)
RECURSIVE GradTo(_, _, _)
GradTo(P, x, j) ==
    IF j = 0 THEN Const(P.nx, 0)
    ELSE LET f == P.f[j]
             r == Ap(f.op, x)
             g == ApT(f.op, TLCEval([i \in 1..Len(r) |-> IF f.q[i] = 16 THEN r[i] - f.t[i]
                                          ELSE RDiv(f.q[i] * (r[i] - f.t[i]), 16)]))
             a == GradTo(P, x, j - 1)
         IN TLCEval([i \in 1..P.nx |-> a[i] + g[i]])
GradF(P, x) == GradTo(P, x, Len(P.f))
RECURSIVE FrTolTo(_, _, _, _)
FrTolTo(P, x, mx, j) ==
    IF j = 0 THEN 0
    ELSE LET f == P.f[j] IN FrTolTo(P, x, mx, j - 1) +
         (IF ~f.op.fr THEN 0
          ELSE LET r == Ap(f.op, x)  q == NMax(1, SeqMax(f.q) \div 16 + 1) IN
               q * FrErrG(f.op, mx, VMaxAbs([i \in 1..Len(r) |-> r[i] - f.t[i]])))
FrTolF(P, x, mx) == FrTolTo(P, x, mx, Len(P.f))
Bm(P, y) == [i \in 1..P.A.nr |-> y[P.b[i]]]
(* rho A'(A x + bs y - c + u); the penalty cancels if there is no smooth f *)
XStepOK(P, x, y, u, rho) ==
  IF P.nuc > 0 THEN NucStepOK(P.nuc, x, TLCEval([i \in 1..P.nx |-> P.c[i] - y[i] - u[i]]), rho)
  ELSE
    LET r0 == IF Len(P.f) = 0 THEN 256 ELSE rho
        ax == Ap(P.A, x)
        z == TLCEval([i \in 1..P.A.nr |-> ax[i] + P.bs * y[P.b[i]] - P.c[i] + u[i]])
        az == ApT(P.A, z)
        g == GradF(P, x)
        mx == VMaxAbs(x)
        tol == P.tf + RMul(P.ta, r0) + 3 + FrTolF(P, x, mx) + RMul(FrErrG(P.A, mx, VMaxAbs(z)), r0)
    IN \A i \in 1..P.nx : Near(g[i] + RMul(az[i], r0), 0, tol)
(* relaxed A x; alpha in quarters *)
Relax(P, x, y, al) ==
    LET ax == Ap(P.A, x) IN
    TLCEval([i \in 1..P.A.nr |-> RDiv(al * ax[i] + (4 - al) * (P.c[i] - P.bs * y[P.b[i]]), 4)])
(* argument of the y prox: for each y, the mean over the constraints *)
YArg(P, axr, u) ==
    LET z == TLCEval([i \in 1..P.A.nr |-> (-P.bs) * (axr[i] - P.c[i] + u[i])]) IN
    IF P.nb = 1 THEN [j \in 1..P.ny |-> z[P.bt[j][1]]]
    ELSE [j \in 1..P.ny |-> RDiv(Sum([k \in 1..Len(P.bt[j]) |-> P.wts[k] * z[P.bt[j][k]]]),
                                          Sum(SubSeq(P.wts, 1, Len(P.bt[j]))))]
YStepOK(P, y, v, rho) ==
    \A k \in 1..Len(P.g) : PieceOK(P.g[k], y, v, rho * P.nbk[k], P.ty, P.nng[k], P.zb)
UStepOK(P, un, u, axr, y) ==
    \A i \in 1..P.A.nr : Near(un[i], u[i] + axr[i] + P.bs * y[P.b[i]] - P.c[i], P.ty)
(* proximal gradient step with L in 1/256 *)
PgStepOK(P, x, y, L) ==
    LET g == GradF(P, y)
        e == TLCEval([i \in 1..P.nx |-> MD(g[i], 256, L)])
        v == TLCEval([i \in 1..P.nx |-> y[i] - e[i]])
        \* the last two terms bound the effect of rounding L
        t == 3 + MD(P.tf + FrTolF(P, y, VMaxAbs(y)), 256, L) + VMaxAbs(e) \div L + (4000000 \div L) \div L
    IN \A k \in 1..Len(P.g) : PieceOK(P.g[k], x, v, L, t, P.nng[k], P.zb)
=============================================================================
