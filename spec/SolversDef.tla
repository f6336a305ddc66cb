------------------------------ MODULE SolversDef ------------------------------
(***************************************************************************)
(* The optimisation problem that each solver class is documented to solve,  *)
(* built from the constructor arguments (record c).                         *)
(***************************************************************************)
EXTENDS Solvers

(* ---- problem records ----------------------------------------------------- *)
RECURSIVE BtAcc(_, _, _)
BtAcc(acc, b, i) == IF i > Len(b) THEN acc ELSE BtAcc([acc EXCEPT ![b[i]] = Append(@, i)], b, i + 1)
(* tolerances: every logged vector carries an error of half a unit (bounds   *)
(* of operators with fractional entries are computed again from these)       *)
FTol(f) == LET qm == NMax(16, SeqMax(f.q))
               r == NMax(1, NMin(1000, IF f.op.nr = 0 THEN 1 ELSE MaxRow(f.op)))
               k == NMax(1, NMin(1000, MaxCol(f.op)))
           IN (qm * (r * k + k + 2)) \div 32 + k
Quad(op, q, t) == [op |-> op, q |-> q, t |-> t]
LS(op, t) == Quad(op, Const(op.nr, 16), t)
RECURSIVE SumF(_)
SumF(f) == IF Len(f) = 0 THEN 0 ELSE FTol(f[1]) + SumF(Tail(f))
(* f, number of x, A, c, row -> y, number of y, sign of B, pieces of g with  *)
(* their factors and signs, indices forced to zero, statistics, objective    *)
Problem(f, nx, A, c, b, ny, bs, g, nn, zb, st, obj) ==
    LET bt == BtAcc([j \in 1..ny |-> <<>>], b, 1)
        r == NMax(1, NMin(1000, MaxRow(A)))
        k == NMax(1, NMin(1000, MaxCol(A)))
    IN [f |-> f, nx |-> nx, A |-> A, c |-> c, b |-> b, bt |-> bt,
        nb |-> IF ny = A.nr THEN 1 ELSE 2, ny |-> ny, bs |-> bs, g |-> g,
        nuc |-> 0, wts |-> IF ny = A.nr THEN <<1>> ELSE Const(Len(bt[1]), 1),
        nbk |-> [i \in 1..Len(g) |-> IF ny = A.nr THEN 1 ELSE Len(bt[1])], nng |-> nn, zb |-> zb,
        tf |-> SumF(f), ta |-> (r * k) \div 2 + k + 1, ty |-> r + 3,
        st |-> st, obj |-> obj, sdev |-> FALSE, cons |-> FALSE, rec |-> Eye(0), recy |-> FALSE, rety |-> "x",
        crop |-> <<>>, cropo |-> 0, yx |-> <<>>, rx |-> <<>>, ry |-> <<>>]
EqProblem(f, nx, g, nn, zb, st, obj) ==
    LET I == Eye(nx) IN Problem(f, nx, I, Const(nx, 0), Rng(0, nx), nx, -1, g, nn, zb, st, obj)
(* two blocks, [A0; A1] x - y = [c0; c1] *)
TwoProblem(f, nx, A0, c0, A1, c1, g, nn, zb, st, obj) ==
    LET A == Stack(A0, A1) IN
    Problem(f, nx, A, c0 \o c1, Rng(0, A.nr), A.nr, -1, g, nn, zb, st, obj)

(* statistics: name, kind, variable, data *)
StQ(n, at, f) == [n |-> n, k |-> "q", at |-> at, f |-> f]
StP(n, at, p) == [n |-> n, k |-> "p", at |-> at, p |-> p]
StD(n, at, p) == [n |-> n, k |-> "d", at |-> at, p |-> p]
L1(ix, w, lam) == [k |-> "l1", ix |-> ix, w |-> w, lam |-> lam]
L21(gs, w, lam) == [k |-> "l21", gs |-> gs, w |-> w, lam |-> lam]
Sl(gs, wx, lam, w, mu) == [k |-> "sl", gs |-> gs, wx |-> wx, lam |-> lam, w |-> w, mu |-> mu]
PL1(gs, rad) == [k |-> "pl1", gs |-> gs, rad |-> rad]
PL2(gs, rad) == [k |-> "pl2", gs |-> gs, rad |-> rad, ctr |-> <<>>]
(* ball around the values of the function ctr of the indices *)
PL2C(gs, rad, ctr(_)) == [k |-> "pl2", gs |-> gs, rad |-> rad,
    ctr |-> [g \in 1..Len(gs) |-> [j \in 1..Len(gs[g]) |-> ctr(gs[g][j])]]]
QuadP(ix, w) == [k |-> "quad", ix |-> ix, w |-> w]
DictP(gs, parts, zm, nn) == [k |-> "dict", gs |-> gs, parts |-> parts, zm |-> zm, nn |-> nn]
FreeP(ix) == [k |-> "free", ix |-> ix]
All4(n) == [i \in 1..n |-> 4]

(* ---- the classes ---------------------------------------------------------- *)
WArr(c, sh) == Spread(c.wl1, sh)
Bpdn(c) ==
    LET n == c.D.sh[2]  m == c.S.sh[2]  nx == n * m  sh == <<n, m>>
        op == LeftMul(c.D, m)
        t == Lift(c.S.v)
        df == LS(op, t)
        w == WArr(c, sh)
        l1 == L1(Rng(0, nx), w, c.lm)
        gs == Groups(sh, {2}, 0)
        I2 == LS(Eye(nx), Const(nx, 0))
        base == <<StQ("DFid", "f", df), StP("RegL1", "g", l1)>>
        ob == << <<"DFid", 16>>, <<"RegL1", c.lm>> >>
    IN CASE c.cls = "BPDN" -> EqProblem(<<df>>, nx, <<l1>>, <<c.nn>>, {}, base, ob)
         [] c.cls = "BPDNJoint" ->
              EqProblem(<<df>>, nx, <<Sl(gs, [i \in 1..n |-> [j \in 1..m |-> w[(i - 1) * m + j]]], c.lm, All4(n), c.mu)>>,
                        <<c.nn>>, {}, base \o <<StP("RegL21", "g", L21(gs, All4(n), 16))>>,
                        ob \o << <<"RegL21", c.mu>> >>)
         [] c.cls = "ElasticNet" ->
              EqProblem(<<df, Quad(Eye(nx), Const(nx, c.mu), Const(nx, 0))>>, nx, <<l1>>, <<c.nn>>, {},
                        base \o <<StQ("RegL2", "g", I2)>>, ob \o << <<"RegL2", c.mu>> >>)
         [] c.cls = "BPDNProjL1" ->
              LET p == PL1(Groups(sh, {1}, 0), c.rad) IN
              EqProblem(<<df>>, nx, <<p>>, <<c.nn>>, {}, <<StQ("ObjFun", "f", df), StD("Cnstr", "g", p)>>, <<>>)
         [] c.cls = "MinL1InL2Ball" ->
              LET k == op.nr  l == L1(Rng(0, nx), w, 16)
                  p == PL2C(Groups(<<c.S.sh[1], m>>, {1}, nx), c.rad, LAMBDA i : t[i - nx])
                  P == TwoProblem(<<>>, nx, Eye(nx), Const(nx, 0), op, Const(op.nr, 0), <<l, p>>, <<c.nn, FALSE>>, {},
                                  <<StP("ObjFun", "b", l), StD("Cnstr", "b", p)>>, <<>>)
              IN [P EXCEPT !.sdev = TRUE]
CMod(c) ==
    LET p == c.S.sh[1]  m == c.D.sh[1]   \* c.D holds Z (m x n)
        nx == p * m
        df == LS(RightMul(c.D, p), Lift(c.S.v))
        gs == Groups(<<p, m>>, {1}, 0)
        dp == DictP(gs, [g \in 1..Len(gs) |-> <<[j \in 1..p |-> j]>>], c.zm, FALSE)
    IN EqProblem(<<df>>, nx, <<dp>>, <<FALSE>>, {}, <<StQ("DFid", "f", df), StD("Cnstr", "g", dp)>>, <<>>)

(* convolutional problems *)
DShape(c, L) == [sh |-> L.shpD, v |-> c.D.v]
NoCross(sh, nv, n) ==     \* flat indices of coefficients whose filter crosses the boundary
    {i \in 1..Prod(sh) : LET ix == Unravel(sh, i - 1) IN \E d \in 1..n : ix[d] > sh[d] - nv[d]}
(* mu/2 sum_i w_m |G_i x_m|^2, weights integers (units of 1/16 after mu) *)
GradF1(sh, d, w, mu) == LET op == CGrad(sh, d) IN
    Quad(op, [i \in 1..Prod(sh) |-> mu * w[((i - 1) % sh[Len(sh)]) + 1]], Const(Prod(sh), 0))
RECURSIVE CatSeq(_)
CatSeq(s) == IF Len(s) = 0 THEN <<>> ELSE s[1] \o CatSeq(Tail(s))
Joint(sh, d, c, L) ==     \* sparse group pieces over dimension d
    LET gs == Groups(sh, {d}, 0)
        w == Spread([sh |-> WShape(c.wl1.sh, L), v |-> c.wl1.v], sh)
    IN Sl(gs, [g \in 1..Len(gs) |-> [j \in 1..Len(gs[g]) |-> w[gs[g][j]]]], c.lm,
          [g \in 1..Len(gs) |-> BAt(c.wt2, Unravel(KeepShape(sh, {d}), g - 1))], c.mu)
ShiftP(p, off) == IF p.k \in {"l1", "quad", "free"} THEN [p EXCEPT !.ix = [j \in 1..Len(p.ix) |-> p.ix[j] + off]]
                  ELSE [p EXCEPT !.gs = [g \in 1..Len(p.gs) |-> [j \in 1..Len(p.gs[g]) |-> p.gs[g][j] + off]]]
Cb(c) ==
    LET n == c.dimN
        L == CscLayout(c.D.sh, c.S.sh, c.dk, n)
        D == DShape(c, L)
        sh == L.shpX
        nx == Prod(sh)
        op == ConvOp(D, L.Nv, L.C, L.K)
        t == Lift(c.S.v)
        df == LS(op, t)
        w == Spread([sh |-> WShape(c.wl1.sh, L), v |-> c.wl1.v], sh)
        l1 == L1(Rng(0, nx), w, c.lm)
        zb == IF c.nbc THEN NoCross(sh, L.shpD, n) ELSE {}
        base == <<StQ("DFid", "f", df), StP("RegL1", "g", l1)>>
        ob == << <<"DFid", 16>>, <<"RegL1", c.lm>> >>
        R(P) == [P EXCEPT !.rec = op, !.recy = TRUE, !.rety = "o"]
        nr == op.nr
        wg == [m \in 1..L.M |-> IF Len(c.wg.v) = 1 THEN c.wg.v[1] ELSE c.wg.v[m]]
        gf == [d \in 1..n |-> GradF1(sh, d, wg, c.mu)]
        gf1 == [d \in 1..n |-> GradF1(sh, d, wg, 16)]
        \* two blocks
        zb1 == {i + nr : i \in zb}
        lb(lam) == L1(Rng(nr, nx), w, lam)
        sS == L.Nv \o <<L.C, L.K, 1>>
        W == Spread([sh |-> MShape(c.W.sh, L), v |-> c.W.v], sS)
        R2(P) == [P EXCEPT !.rec = op, !.recy = FALSE, !.rety = "y1", !.sdev = TRUE]
    IN CASE c.cls = "ConvBPDN" -> R(EqProblem(<<df>>, nx, <<l1>>, <<c.nn>>, zb, base, ob))
         [] c.cls = "ConvBPDNJoint" ->
              LET p == Joint(sh, n + 1, c, L) IN
              R(EqProblem(<<df>>, nx, <<p>>, <<c.nn>>, zb, base \o <<StP("RegL21", "g", L21(p.gs, p.w, 16))>>,
                          ob \o << <<"RegL21", c.mu>> >>))
         [] c.cls = "ConvElasticNet" ->
              R(EqProblem(<<df, Quad(Eye(nx), Const(nx, c.mu), Const(nx, 0))>>, nx, <<l1>>, <<c.nn>>, zb,
                          base \o <<StQ("RegL2", "g", LS(Eye(nx), Const(nx, 0)))>>, ob \o << <<"RegL2", c.mu>> >>))
         [] c.cls = "ConvBPDNGradReg" ->
              R(EqProblem(<<df>> \o gf, nx, <<l1>>, <<c.nn>>, zb,
                          base \o <<[n |-> "RegGrad", k |-> "qs", at |-> "f", f |-> gf1]>>,
                          ob \o << <<"RegGrad", c.mu>> >>))
         [] c.cls = "ConvBPDNProjL1" ->
              LET p == PL1(Groups(sh, (1..(n + 1)) \cup {n + 3}, 0), c.rad) IN
              R(EqProblem(<<df>>, nx, <<p>>, <<c.nn>>, zb, <<StQ("ObjFun", "f", df), StD("Cnstr", "g", p)>>, <<>>))
         [] c.cls = "ConvMinL1InL2Ball" ->
              LET p == PL2(Groups(sS, 1..n, 0), c.rad) IN
              R2(TwoProblem(<<>>, nx, op, t, Eye(nx), Const(nx, 0), <<p, lb(16)>>, <<FALSE, c.nn>>, zb1,
                            <<StP("ObjFun", "b", lb(16)), StD("Cnstr", "b", p)>>, <<>>))
         [] c.cls = "ConvBPDNMaskDcpl" ->
              LET q == QuadP(Rng(0, nr), [i \in 1..nr |-> W[i] * W[i]]) IN
              R2(TwoProblem(<<>>, nx, op, t, Eye(nx), Const(nx, 0), <<q, lb(c.lm)>>, <<FALSE, c.nn>>, zb1,
                            <<StP("DFid", "b", q), StP("RegL1", "b", lb(16))>>, ob))
         [] c.cls = "ConvL1L1Grd" ->
              LET q == L1(Rng(0, nr), W, 16) IN
              [R2(TwoProblem(gf, nx, op, t, Eye(nx), Const(nx, 0), <<q, lb(c.lm)>>, <<FALSE, c.nn>>, zb1,
                            <<StP("DFid", "b", q), StP("RegL1", "b", lb(16)),
                              [n |-> "RegGrad", k |-> "qs", at |-> "x", f |-> gf1]>>, ob \o << <<"RegGrad", c.mu>> >>))
               EXCEPT !.sdev = FALSE]
(* ---- total variation, spline, robust PCA, plug and play ------------------- *)
(* A complex image is a real array with a final axis of two components.       *)
(* pieces of the gradient array (components 1..n of m along the last index)   *)
TvPiece(c, sh, n, m) ==
    LET ys == sh \o <<n>>
        ds == {Len(ys)} \cup (IF c.cax > 0 THEN {c.cax} ELSE {}) \cup (IF c.im THEN {Len(sh)} ELSE {})
        gs == Groups(ys, ds, 0)
        ks == KeepShape(ys, ds)
        mv(i) == ((i - 1) \div n) * m + ((i - 1) % n) + 1
    IN L21([g \in 1..Len(gs) |-> [j \in 1..Len(gs[g]) |-> mv(gs[g][j])]],
           [g \in 1..Len(gs) |-> BAt(c.wtv, Take(Unravel(ks, g - 1), Len(sh)))], c.lm)
Tv(c) ==
    LET sh == c.S.sh  nx == Prod(sh)  ax == c.axes  n == Len(ax)
        t == Lift(c.S.v)
        w == Spread(c.wdf, sh)
        den == c.cls \in {"TVL1Denoise", "TVL2Denoise"}
        G == [i \in 1..n |-> IF den THEN FGrad(sh, ax[i]) ELSE CGrad(sh, ax[i])]
        K == IF den THEN Eye(nx) ELSE KernOp(c.A, sh, [d \in 1..Len(sh) |-> d])
        A1 == Inter(G \o <<K>>)
        A2 == Inter(G)
        p2 == TvPiece(c, sh, n, n)
        p1 == TvPiece(c, sh, n, n + 1)
        \* modulus of every (complex) pixel
        d1 == IF c.im THEN L21([i \in 1..(nx \div 2) |-> <<(2 * i - 1) * (n + 1), 2 * i * (n + 1)>>],
                               [i \in 1..(nx \div 2) |-> w[2 * i]], 16)
              ELSE L1([i \in 1..nx |-> i * (n + 1)], w, 16)
        c1 == [i \in 1..(nx * (n + 1)) |-> IF i % (n + 1) = 0 THEN t[i \div (n + 1)] ELSE 0]
        q2 == Quad(K, IF den THEN [i \in 1..nx |-> w[i] * w[i]] ELSE Const(nx, 16), t)
        lb == [i \in 1..A1.nr |-> i]
        ob == << <<"DFid", 16>>, <<"RegTV", c.lm>> >>
        un(p) == [p EXCEPT !.lam = 16]
    IN IF c.cls \in {"TVL1Denoise", "TVL1Deconv"}
       THEN [Problem(<<>>, nx, A1, c1, lb, nx * (n + 1), -1, <<p1, d1>>, <<FALSE, FALSE>>, {},
                     <<StP("DFid", "b", d1), StP("RegTV", "b", un(p1))>>, ob) EXCEPT !.sdev = TRUE]
       ELSE Problem(<<q2>>, nx, A2, Const(A2.nr, 0), [i \in 1..A2.nr |-> i], A2.nr, -1, <<p2>>, <<FALSE>>, {},
                    <<StQ("DFid", "x", q2), StP("RegTV", "b", un(p2))>>, ob)
Spline(c) ==
    LET sh == c.S.sh  nx == Prod(sh)
        op == Lapl(sh, c.axes)
        w == Spread(c.wdf, sh)
        g == L1(Rng(0, nx), w, 16)
    IN Problem(<<Quad(op, Const(nx, c.lm), Const(nx, 0))>>, nx, Eye(nx), Lift(c.S.v), Rng(0, nx), nx, -1, <<g>>,
               <<FALSE>>, {}, <<StP("DFid", "b", g), StQ("Reg", "x", LS(op, Const(nx, 0)))>>,
               << <<"DFid", 16>>, <<"Reg", c.lm>> >>)
Rpca(c) ==
    LET nx == Prod(c.S.sh)  t == Lift(c.S.v)
        g == L1(Rng(0, nx), Const(nx, 4), c.lm)
        P == Problem(<<>>, nx, Eye(nx), t, Rng(0, nx), nx, 1, <<g>>, <<FALSE>>, {},
               <<[n |-> "NrmNuc", k |-> "nuc", at |-> "fc", cols |-> c.S.sh[2]],
                 StP("NrmL1", "gc", L1(Rng(0, nx), Const(nx, 4), 16)),
                 [n |-> "Cnstr", k |-> "res", at |-> "x"]>>,
               << <<"NrmNuc", 16>>, <<"NrmL1", c.lm>> >>)
    IN [P EXCEPT !.nuc = c.S.sh[2]]
Ppp(c) ==
    LET nx == Prod(c.S.sh)
        f == LS(Eye(nx), Lift(c.S.v))
        g == L1(Rng(0, nx), Const(nx, 4), c.lm)
        n == Len(c.pts)
        \* block k: 1/2 |x_k - t_k|^2; x has the block as last index
        fk == LS(Eye(nx * n), [i \in 1..(nx * n) |-> UU * c.pts[((i - 1) % n) + 1].v[((i - 1) \div n) + 1]])
    IN IF c.cls = "PPP"
       THEN EqProblem(<<f>>, nx, <<g>>, <<FALSE>>, {}, <<StQ("FVal", "x", f)>>, <<>>)
       ELSE LET P == Problem(<<fk>>, nx * n, Eye(nx * n), Const(nx * n, 0),
                             [i \in 1..(nx * n) |-> (i - 1) \div n + 1], nx, -1, <<g>>, <<FALSE>>, {}, <<>>, <<>>)
            IN [P EXCEPT !.wts = c.mus, !.nbk = <<Sum(c.mus)>>, !.cons = TRUE]
(* ---- variants of convolutional BPDN ---------------------------------------- *)
(* total variation of the coefficient maps or of the reconstruction            *)
CbTv(c) ==
    LET n == c.dimN
        L == CscLayout(c.D.sh, c.S.sh, c.dk, n)
        D == DShape(c, L)
        sh == L.shpX  nx == Prod(sh)
        op == ConvOp(D, L.Nv, L.C, L.K)
        df == LS(op, Lift(c.S.v))
        w == Spread([sh |-> WShape(c.wl1.sh, L), v |-> c.wl1.v], sh)
        tw == [m \in 1..L.M |-> IF Len(c.wg.v) = 1 THEN c.wg.v[1] ELSE c.wg.v[m]]
        wx == [i \in 1..nx |-> tw[((i - 1) % L.M) + 1]]
        A == Inter([d \in 1..n |-> RowScale(CGrad(sh, d), wx)] \o <<Eye(nx)>>)
        ys == sh \o <<n>>
        gs == Groups(ys, IF c.cls = "ConvBPDNScalarTV" THEN {n + 4} ELSE {n + 3, n + 4}, 0)
        mv(i) == ((i - 1) \div n) * (n + 1) + ((i - 1) % n) + 1
        tv == L21([g \in 1..Len(gs) |-> [j \in 1..Len(gs[g]) |-> mv(gs[g][j])]], All4(Len(gs)), c.mu)
        yx == [i \in 1..nx |-> i * (n + 1)]
        l1 == L1(yx, w, c.lm)
        \* gradients of the reconstruction
        Dw == [sh |-> D.sh, v |-> [i \in 1..Len(D.v) |-> D.v[i] * tw[((i - 1) % L.M) + 1]]]
        os == L.Nv \o <<L.C, L.K, 1>>
        opw == ConvOp(Dw, L.Nv, L.C, L.K)
        GD == Inter([d \in 1..n |-> Comp(CGrad(os, d), opw)])
        rgs == Groups(os \o <<n>>, {n + 1, n + 4}, nx)
        rtv == L21(rgs, All4(Len(rgs)), c.mu)
        rl1 == L1(Rng(0, nx), w, c.lm)
        un(p) == [p EXCEPT !.lam = 16]
        ob == << <<"DFid", 16>>, <<"RegL1", c.lm>>, <<"RegTV", c.mu>> >>
        R(P, y, l, t) == [P EXCEPT !.rec = op, !.yx = y, !.ry = y,
                       !.st = <<StQ("DFid", "f", df), StP("RegL1", "b", un(l)), StP("RegTV", "b", un(t))>>]
    IN IF c.cls = "ConvBPDNRecTV"
       THEN R(Problem(<<df>>, nx, Stack(Eye(nx), GD), Const(nx + GD.nr, 0), Rng(0, nx + GD.nr), nx + GD.nr, -1,
                      <<rl1, rtv>>, <<FALSE, FALSE>>, {}, <<>>, ob), Rng(0, nx), rl1, rtv)
       ELSE R(Problem(<<df>>, nx, A, Const(A.nr, 0), Rng(0, A.nr), A.nr, -1, <<tv, l1>>, <<FALSE, FALSE>>, {}, <<>>, ob),
              yx, l1, tv)
(* product dictionaries: D X B' *)
CbPd(c) ==
    LET n == c.dimN
        L == CscLayout(c.D.sh, c.S.sh, c.dk, n)
        D == DShape(c, L)
        Cb1 == c.B.sh[2]
        sh == L.Nv \o <<Cb1, L.K, L.M>>  nx == Prod(sh)
        op == Comp(ChanOp(c.B, L.Nv \o <<Cb1, L.K, 1>>, n + 1), ConvOp(D, L.Nv, Cb1, L.K))
        t == Lift(c.S.v)
        df == LS(op, t)
        w == Spread(c.wl1, sh)
        l1 == L1(Rng(0, nx), w, c.lm)
        zb == IF c.nbc THEN NoCross(sh, L.shpD, n) ELSE {}
        gs == Groups(sh, {n + 1}, 0)
        sp == Sl(gs, [g \in 1..Len(gs) |-> [j \in 1..Len(gs[g]) |-> w[gs[g][j]]]], c.lm, All4(Len(gs)), c.mu)
        nr == op.nr
        W == Spread([sh |-> MShape(c.W.sh, L), v |-> c.W.v], L.Nv \o <<L.C, L.K, 1>>)
        wg == [m \in 1..L.M |-> IF Len(c.wg.v) = 1 THEN c.wg.v[1] ELSE c.wg.v[m]]
        gf == [d \in 1..n |-> GradF1(sh, d, wg, c.mu)]
        gf1 == [d \in 1..n |-> GradF1(sh, d, wg, 16)]
        q == L1(Rng(0, nr), W, 16)
        g1 == IF c.cls = "ConvProdDictL1L1Grd" THEN L1(Rng(nr, nx), w, c.lm)
              ELSE LET g2 == Groups(sh, {n + 1}, nr) IN
                   L21(g2, [g \in 1..Len(g2) |-> BAt(c.wt2, Unravel(KeepShape(sh, {n + 1}), g - 1))], c.lm)
        rn == IF c.cls = "ConvProdDictL1L1Grd" THEN "RegL1" ELSE "RegL21"
        un(p) == [p EXCEPT !.lam = 16]
        zb1 == {i + nr : i \in zb}
        base == <<StQ("DFid", "f", df), StP("RegL1", "g", l1)>>
        ob == << <<"DFid", 16>>, <<"RegL1", c.lm>> >>
    IN CASE c.cls = "ConvProdDictBPDN" ->
              [EqProblem(<<df>>, nx, <<l1>>, <<c.nn>>, zb, base, ob) EXCEPT !.rec = op, !.recy = TRUE]
         [] c.cls = "ConvProdDictBPDNJoint" ->
              [EqProblem(<<df>>, nx, <<sp>>, <<c.nn>>, zb, base \o <<StP("RegL21", "g", L21(gs, sp.w, 16))>>,
                         ob \o << <<"RegL21", c.mu>> >>) EXCEPT !.rec = op, !.recy = TRUE]
         [] OTHER ->
              [TwoProblem(gf, nx, op, t, Eye(nx), Const(nx, 0), <<q, g1>>, <<FALSE, c.nn>>, zb1,
                          <<StP("DFid", "b", q), StP(rn, "b", un(g1)),
                            [n |-> "RegGrad", k |-> "qs", at |-> "x", f |-> gf1]>>,
                          << <<"DFid", 16>>, <<rn, c.lm>>, <<"RegGrad", c.mu>> >>)
               EXCEPT !.rec = op, !.sdev = TRUE]
(* additive mask simulation: impulse filters whose maps are free where the    *)
(* mask is zero and zero elsewhere (c.D: all filters, internal layout)        *)
CbAms(c) ==
    LET n == c.dimN
        L == CscLayout(c.D.sh, c.S.sh, c.dk, n)
        M0 == L.M - L.Cd
        sh == L.shpX  nx == Prod(sh)
        op == ConvOp(DShape(c, L), L.Nv, L.C, L.K)
        df == LS(op, Lift(c.S.v))
        w == Spread([sh |-> WShape(c.wl1.sh, L), v |-> c.wl1.v], sh)
        fm(i) == (i - 1) % L.M           \* filter of a coefficient
        prim == SelectSeq(Rng(0, nx), LAMBDA i : fm(i) < M0)
        sS == L.Nv \o <<L.C, L.K, 1>>
        W == [sh |-> MShape(c.W.sh, L), v |-> c.W.v]
        msk(i) == LET ix == Unravel(sh, i - 1) IN
                  BAt(W, IF L.Cd = 1 THEN Take(ix, n + 2) \o <<0>> ELSE Take(ix, n) \o <<fm(i) - M0, ix[n + 2], 0>>)
        imp == SelectSeq(Rng(0, nx), LAMBDA i : fm(i) >= M0)
        l1 == L1(prim, [j \in 1..Len(prim) |-> w[prim[j]]], c.lm)
        zb == (IF c.nbc THEN NoCross(sh, L.shpD, n) ELSE {}) \ {imp[j] : j \in 1..Len(imp)}
        P == EqProblem(<<df>>, nx, <<l1, FreeP(SelectSeq(imp, LAMBDA i : msk(i) = 0)),
                                    [k |-> "zero", ix |-> SelectSeq(imp, LAMBDA i : msk(i) # 0)]>>,
                       <<c.nn, FALSE, FALSE>>, zb,
                       <<StQ("DFid", "f", df), StP("RegL1", "g", [l1 EXCEPT !.lam = 16])>>,
                       << <<"DFid", 16>>, <<"RegL1", c.lm>> >>)
        D0 == [sh |-> Take(L.shpD, n + 2) \o <<M0>>,
               v |-> LET q == SelectSeq([i \in 1..Len(c.D.v) |-> <<i, c.D.v[i]>>], LAMBDA e : fm(e[1]) < M0) IN
                     [j \in 1..Len(q) |-> q[j][2]]]
    IN [P EXCEPT !.rec = ConvOp(D0, L.Nv, L.C, L.K), !.recy = TRUE, !.rx = prim, !.ry = prim]
(* ---- convolutional dictionary update -------------------------------------- *)
(* c.Z: Nv \o <<1, K, M>>, c.S: Nv \o <<C, K>> (for a single channel         *)
(* dictionary the channels of the signal are further signals), c.sup: support  *)
(* of each filter                                                             *)
DuParts(c, sh) ==
    LET n == Len(c.Nv)  rs == Take(sh, n + 2) IN
    [m \in 1..c.M |-> [ch \in 1..c.Cd |->
        LET sp == c.sup[m] IN
        [j \in 1..Prod(sp) |-> Ravel(rs, Unravel(sp, j - 1) \o <<ch - 1, 0>>) + 1]]]
MaxSupOf(c) == [d \in 1..Len(c.Nv) |-> SeqMax([m \in 1..c.M |-> c.sup[m][d]])]
Du(c) ==
    LET n == Len(c.Nv)  sh == c.Nv \o <<c.Cd, 1, c.M>>  nx == Prod(sh)
        C == c.S.sh[n + 1]  K == c.S.sh[n + 2]
        op == DictOp(c.Z, c.Nv, C, c.Cd, FALSE)
        opb == DictOp(c.Z, c.Nv, C, c.Cd, TRUE)
        t == Lift(c.S.v)
        parts == DuParts(c, sh)
        dp(off) == DictP(Groups(sh, 1..(n + 2), off), parts, c.zm, FALSE)
        W == Spread(c.W, c.Nv \o c.CK)
        W2 == [i \in 1..op.nr |-> W[i] * W[i]]
        df == LS(op, t)
        dfb == LS(opb, t)
        bl == [i \in 1..(nx * K) |-> (i - 1) \div K + 1]
        cn == [n |-> "Cnstr", k |-> "d", at |-> "gm", p |-> dp(0)]
        R(P) == [P EXCEPT !.rec = op, !.recy = FALSE, !.rety = "x", !.crop = <<MaxSupOf(c), sh>>]
        nr == op.nr
    IN CASE c.cls \in {"ConvCnstrMOD_IterSM", "ConvCnstrMOD_CG"} ->
              R(EqProblem(<<df>>, nx, <<dp(0)>>, <<FALSE>>, {}, <<StQ("DFid", "f", df), StD("Cnstr", "g", dp(0))>>, <<>>))
         [] c.cls = "ConvCnstrMOD_Consensus" ->
              R([Problem(<<dfb>>, nx * K, Eye(nx * K), Const(nx * K, 0), bl, nx, -1, <<dp(0)>>, <<FALSE>>, {},
                         <<IF c.fx THEN StQ("DFid", "x", dfb) ELSE StQ("DFid", "y", df), cn>>, <<>>)
                 EXCEPT !.cons = TRUE])
         [] c.cls \in {"ConvCnstrMODMaskDcpl_IterSM", "ConvCnstrMODMaskDcpl_CG"} ->
              LET q == QuadP(Rng(0, nr), W2) IN
              [R(TwoProblem(<<>>, nx, op, t, Eye(nx), Const(nx, 0), <<q, dp(nr)>>, <<FALSE, FALSE>>, {},
                           <<StP("DFid", "b", q), StD("Cnstr", "b", dp(nr))>>, <<>>))
               EXCEPT !.sdev = TRUE, !.cropo = nr]
         [] c.cls = "ConvCnstrMODMaskDcpl_Consensus" ->
              LET A == Stack(Eye(nx * K), opb) IN
              R([Problem(<<>>, nx * K, A, Const(nx * K, 0) \o t, bl \o Rng(nx, nr), nx + nr, -1,
                         <<dp(0), QuadP(Rng(nx, nr), W2)>>, <<FALSE, FALSE>>, {},
                         <<IF c.fx THEN StQ("DFid", "x", Quad(opb, W2, t)) ELSE StQ("DFid", "y", Quad(op, W2, t)), cn>>,
                         <<>>)
                 EXCEPT !.sdev = TRUE, !.nbk = <<K, 1>>])
(* ---- proximal gradient classes -------------------------------------------- *)
(* same problems, with (weighted) quadratic data term, solved by proximal      *)
(* gradient steps                                                              *)
Pg(c) ==
    LET Wdf(P, q) == LET f == [P.f[1] EXCEPT !.q = q] IN
                     [P EXCEPT !.f = <<f>>, !.tf = FTol(f), !.recy = FALSE, !.rety = "x",
                               !.st = [j \in 1..Len(P.st) |-> IF P.st[j].k = "q" THEN [P.st[j] EXCEPT !.f = f] ELSE P.st[j]]]
        as(k) == [c EXCEPT !.cls = k]
        W4(sh) == LET w == Spread(c.W, sh) IN [i \in 1..Len(w) |-> 4 * w[i]]
        W2(w) == [i \in 1..Len(w) |-> w[i] * w[i]]
        NP(P) == [P EXCEPT !.recy = FALSE]
        nnd(P) == [P EXCEPT !.g = [j \in 1..Len(P.g) |-> [P.g[j] EXCEPT !.nn = c.nn]],
                            !.st = [j \in 1..Len(P.st) |-> IF P.st[j].k = "d" THEN [P.st[j] EXCEPT !.p.nn = c.nn] ELSE P.st[j]]]
        R(P, op) == [P EXCEPT !.rec = op]
    IN CASE c.cls = "pgmBPDN" -> LET P == Bpdn(as("BPDN")) IN NP(R(P, P.f[1].op))
         [] c.cls = "pgmWeightedBPDN" -> LET P == Wdf(Bpdn(as("BPDN")), W4(c.S.sh)) IN R(P, P.f[1].op)
         [] c.cls = "pgmCnstrMOD" -> LET P == nnd(CMod(as("CnstrMOD"))) IN NP(R(P, P.f[1].op))
         [] c.cls = "pgmWeightedCnstrMOD" -> LET P == nnd(Wdf(CMod(as("CnstrMOD")), W4(c.S.sh))) IN R(P, P.f[1].op)
         [] c.cls = "pgmConvBPDN" -> NP(Cb(as("ConvBPDN")))
         [] c.cls = "pgmConvBPDNMask" ->
              LET n == c.dimN
                  L == CscLayout(c.D.sh, c.S.sh, c.dk, n)
                  W == Spread([sh |-> MShape(c.W.sh, L), v |-> c.W.v], L.Nv \o <<L.C, L.K, 1>>)
              IN Wdf(Cb(as("ConvBPDN")), W2(W))
         [] c.cls = "pgmConvCnstrMOD" -> NP(Du(as("ConvCnstrMOD_IterSM")))
         [] c.cls = "pgmConvCnstrMODMask" -> Wdf(Du(as("ConvCnstrMOD_IterSM")), W2(Spread(c.W, c.Nv \o c.CK)))
         [] c.cls = "pgmPPP" -> NP(Ppp(as("PPP")))
PgClasses == {"pgmBPDN", "pgmWeightedBPDN", "pgmCnstrMOD", "pgmWeightedCnstrMOD", "pgmConvBPDN", "pgmConvBPDNMask",
              "pgmConvCnstrMOD", "pgmConvCnstrMODMask", "pgmPPP"}
PgDft == {"pgmConvBPDN", "pgmConvBPDNMask", "pgmConvCnstrMOD", "pgmConvCnstrMODMask"}
Build1(c) ==
    CASE c.cls \in PgClasses -> Pg(c)
      [] c.cls \in {"BPDN", "BPDNJoint", "ElasticNet", "BPDNProjL1", "MinL1InL2Ball"} -> Bpdn(c)
      [] c.cls = "CnstrMOD" -> CMod(c)
      [] c.cls \in {"TVL1Denoise", "TVL2Denoise", "TVL1Deconv", "TVL2Deconv"} -> Tv(c)
      [] c.cls = "SplineL1" -> Spline(c)
      [] c.cls = "RobustPCA" -> Rpca(c)
      [] c.cls \in {"PPP", "PPPConsensus"} -> Ppp(c)
      [] c.cls \in {"ConvCnstrMOD_IterSM", "ConvCnstrMOD_CG", "ConvCnstrMOD_Consensus", "ConvCnstrMODMaskDcpl_IterSM",
                     "ConvCnstrMODMaskDcpl_CG", "ConvCnstrMODMaskDcpl_Consensus"} -> Du(c)
      [] c.cls \in {"ConvBPDNScalarTV", "ConvBPDNVectorTV", "ConvBPDNRecTV"} -> CbTv(c)
      [] c.cls \in {"ConvProdDictBPDN", "ConvProdDictBPDNJoint", "ConvProdDictL1L1Grd",
                     "ConvProdDictL1L1GrdJoint"} -> CbPd(c)
      [] c.cls = "AddMaskSim" -> CbAms(c)
      [] c.cls = "MultiDictConvBPDN" -> Cb([c EXCEPT !.cls = "ConvBPDN"])
      [] OTHER -> Cb(c)
BuildP(c) == TLCEval(Build1(c))
(* value (1/1024) of a quadratic term *)
QV(f, x) == LET r == Ap(f.op, x) IN
    Sum([i \in 1..Len(r) |-> RDiv(f.q[i] * Sq(r[i] - f.t[i]), 32)])
(* effect of rounded operator entries on QV *)
QvErr(f, x) == IF ~f.op.fr THEN 0
               ELSE LET r == Ap(f.op, x)  e == FrErr(f.op, VMaxAbs(x))
                        d == [i \in 1..Len(r) |-> r[i] - f.t[i]] IN
                    (Len(r) * ((NMax(1, SeqMax(f.q)) * (VMaxAbs(d) \div 64 + 1)) \div 16 + 1) * e) \div 256 + 1
=============================================================================
