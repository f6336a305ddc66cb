----------------------------- MODULE SolversTrace -----------------------------
(***************************************************************************)
(* Judge for recorded runs of the solver classes: every recorded iteration  *)
(* is checked against the steps of Solvers for the problem of SolversDef.   *)
(***************************************************************************)
EXTENDS TraceDriver, SolversDef

(* ---- observations ---------------------------------------------------------- *)
AxC(P, x) == LET ax == Ap(P.A, x) IN TLCEval([i \in 1..P.A.nr |-> (-P.bs) * (ax[i] - P.c[i])])
Pick(ix, v) == IF Len(ix) = 0 THEN v ELSE TLCEval(Sub(v, ix))
Var(P, c, at, X, Y) ==
    CASE at = "x" -> X
      [] at = "y" -> Y
      [] at = "f" -> IF c.fx THEN X ELSE Pick(P.yx, Y)
      [] at = "g" -> IF c.gy THEN Y ELSE X
      [] at = "gm" -> IF c.gy THEN Y ELSE
           TLCEval([j \in 1..(P.nx \div Len(P.bt[1])) |-> RDiv(Sum([k \in 1..Len(P.bt[1]) |-> X[P.bt[j][k]]]), Len(P.bt[1]))])
      [] at = "fc" -> IF c.fx THEN X ELSE TLCEval([i \in 1..P.nx |-> P.c[i] - P.bs * Y[i]])
      [] at = "gc" -> IF c.gy THEN Y ELSE AxC(P, X)
      [] at = "b" -> IF c.aux THEN Y ELSE AxC(P, X)
NearV(v, e, slack) == Near(v, e, NAbs(e) \div 48 + 24 + slack)
(* v in 1/1024 *)
StOK(P, c, s, X, Y, v) ==
    LET z == TLCEval(Var(P, c, s.at, X, Y)) IN
    CASE s.k = "q" -> NearV(v, QV(s.f, z), 4 * s.f.op.nr + QvErr(s.f, z))
      [] s.k = "nuc" -> Near(v, 4 * NucNorm(z, s.cols), 24 + NAbs(v) \div 48)
      [] s.k = "res" -> NearV(v, RDiv(Nrm(TLCEval([i \in 1..P.nx |-> X[i] + P.bs * Y[i] - P.c[i]])), 4), 8)
      [] s.k = "qs" -> NearV(v, Sum([j \in 1..Len(s.f) |-> QV(s.f[j], z)]), 4 * Len(z))
      [] s.k = "p" -> NearV(v, PieceVal(s.p, z), Len(z) * P.ty)
      [] s.k = "d" -> \/ NearV(v, Dist(s.p, z), 8 * P.ty)
                      \/ s.p.k = "dict" /\ \E g \in 1..Len(s.p.gs) : VMaxAbs(Centred(Sub(z, s.p.gs[g]), s.p.parts[g], s.p.zm, s.p.nn)) < 200
ObjOK(o, st) == Near(st.ObjFun, Sum([j \in 1..Len(o) |-> RDiv(o[j][2] * st[o[j][1]], 16)]), 4 + Len(o) * 4)
(* residuals: numerators and denominators *)
RsdOK(v, num, den, std, err) ==
    IF std THEN Near(v, num, num \div 40 + err)
    ELSE LET d == IF den = 0 THEN UU ELSE den  e == MD(num, UU, d) IN
         \/ den < 40
         \/ Near(v, e, e \div 30 + 8 + MD(err, UU, d))
RtW(P, i) == ISqrt(P.wts[((i - 1) % Len(P.wts)) + 1] * 16384)
WNrm(P, v) == Nrm(TLCEval([i \in 1..Len(v) |-> RDiv(v[i] * RtW(P, i), 128)]))
ResidOK(P, c, e) ==
    LET ax == Ap(P.A, e.X)
        by == [i \in 1..P.A.nr |-> e.Y[P.b[i]]]
        r == TLCEval([i \in 1..P.A.nr |-> ax[i] + P.bs * by[i] - P.c[i]])
        atu == ApT(P.A, e.U)
        dy == TLCEval([i \in 1..P.A.nr |-> e.Y[P.b[i]] - e.Yp[P.b[i]]])
        s == IF P.sdev THEN atu ELSE ApT(P.A, dy)
        sq == ISqrt(P.A.nr) + 1
        sx == ISqrt(P.nx) + 1
        ra == RDiv(ISqrt(SumSq(P.wts) * 16384), 1)     \* 128 |weights|
        dyy == TLCEval(VSub(e.Y, e.Yp))
        wr == IF P.cons THEN WNrm(P, r) ELSE Nrm(r)
        wn == IF P.cons THEN NMax(WNrm(P, ax), RDiv(ra * Nrm(e.Y), 128))
              ELSE NMax(Nrm(ax), NMax(Nrm(e.Y), Nrm(P.c)))
        ws == IF P.cons THEN RDiv(ra * Nrm(dyy), 128) ELSE Nrm(s)
    IN << <<"primal residual", RsdOK(e.r, wr, wn, c.std, P.ty * sq)>>,
          <<"dual residual", RsdOK(e.s, RMul(ws, e.rho), RMul(IF P.sdev \/ P.cons THEN Nrm(e.U) ELSE Nrm(atu), e.rho),
                                   c.std, RMul(P.ta * sx, e.rho) + P.ta * sx)>> >>
(* product with a momentum factor in 1/16384 *)
MomB(v, b) == IF v >= 0 THEN MD(v, b, 16384) ELSE -MD(-v, b, 16384)
NoIter == [k |-> 0]
ScaleOK(un, u, rn, r) ==   \* rho u is kept when rho changes
    Len(un) = Len(u) /\ \A i \in 1..Len(u) : Near(RMul(un[i], rn), RMul(u[i], r), RMul(1, rn) + RMul(1, r) + 2)
Judge0(st, ev) ==
    CASE ev.e = "init" /\ ev.cfg.cls = "none" -> OK(0)
      [] ev.e = "init" -> OK([c |-> ev.cfg, P |-> BuildP(ev.cfg), last |-> NoIter])
      [] ev.e = "iter" ->
           LET P == st.P  c == st.c
               axr == Relax(P, ev.X, ev.Yp, c.al)
               v == TLCEval(YArg(P, axr, ev.Up))
           IN Verdict([st EXCEPT !.last = ev], <<
                <<"sizes", Len(ev.X) = P.nx /\ Len(ev.Y) = P.ny /\ Len(ev.U) = P.A.nr
                           /\ Len(ev.Yp) = P.ny /\ Len(ev.Up) = P.A.nr>>,
                <<"state carried between iterations", st.last.k = 0 \/
                     (ev.Yp = st.last.Y /\ ScaleOK(ev.Up, st.last.U, ev.rho, st.last.rho))>>,
                <<"x step", XStepOK(P, ev.X, ev.Yp, ev.Up, ev.rho)>>,
                <<"x step residual", ev.xrrs <= -6>>,
                <<"y step", YStepOK(P, ev.Y, v, ev.rho)>>,
                <<"u step", UStepOK(P, ev.U, ev.Up, axr, ev.Y)>> >>
                \o [j \in 1..Len(P.st) |-> <<P.st[j].n, StOK(P, c, P.st[j], ev.X, ev.Y, ev.st[P.st[j].n])>>]
                \o << <<"objective", Len(P.obj) = 0 \/ ObjOK(P.obj, ev.st)>> >>
                \o ResidOK(P, c, ev))
      [] ev.e = "pstart" ->
           Verdict([st EXCEPT !.last = ev], <<
             <<"initial x", IF st.c.y0 THEN VNear(ev.X, ev.X0, 1) ELSE \A i \in 1..st.P.nx : ev.X[i] = 0>>,
             <<"initial y", VNear(ev.Y, ev.X, 1)>> >>)
      [] ev.e = "pit" ->
           LET P == st.P  c == st.c
               d == TLCEval(VSub(ev.X, ev.Yp)) IN
           Verdict([st EXCEPT !.last = ev], <<
                <<"sizes", Len(ev.X) = P.nx /\ Len(ev.Yp) = P.nx>>,
                <<"state carried between iterations", VNear(ev.Xp, st.last.X, 1) /\ VNear(ev.Yp, st.last.Y, 1)>>,
                <<"gradient", VNear(ev.G, GradF(P, ev.Yp), P.tf + 2 + FrTolF(P, ev.Yp, VMaxAbs(ev.Yp)))>>,
                <<"proximal gradient step", PgStepOK(P, ev.X, ev.Yp, ev.L)>>,
                <<"momentum", \/ Len(P.g) = 0
                              \/ \A i \in 1..P.nx : Near(ev.Y[i], ev.X[i] + MomB(ev.X[i] - ev.Xp[i], ev.b), 3)>>,
                <<"fixed point residual", IF c.cls \in PgDft THEN NearV(ev.r, Sum([i \in 1..P.nx |-> Sq(d[i])]), 4 * P.nx)
                                          ELSE NearV(ev.r, RDiv(Nrm(d), 4), 8)>> >>
                \o [j \in 1..Len(P.st) |-> <<P.st[j].n, StOK(P, c, P.st[j], ev.X, ev.X, ev.st[P.st[j].n])>>]
                \o << <<"objective", Len(P.obj) = 0 \/ ObjOK(P.obj, ev.st)>> >>)
      [] ev.e = "hess" ->
           LET P == st.P  g0 == GradF(P, Const(P.nx, 0))  g1 == GradF(P, ev.V) IN
           Verdict(st, << <<"hessian", VNear(ev.v, TLCEval(VSub(g1, g0)), 2 * P.tf + 4)>>,
                          <<"gradient", VNear(ev.g, g1, P.tf + 4)>> >>)
      [] ev.e = "start" ->
           LET P == st.P  c == st.c IN
           Verdict(st, <<
             <<"initial y", IF c.y0 THEN VNear(ev.Y, ev.Y0, 1) ELSE \A i \in 1..P.ny : ev.Y[i] = 0>>,
             <<"initial u", IF c.u0 THEN VNear(ev.U, ev.U0, 1)
                            ELSE IF ~c.y0 THEN \A i \in 1..P.A.nr : ev.U[i] = 0 ELSE TRUE>>,
             <<"initial u dual optimal", c.u0 \/ ~c.y0 \/ ~c.dual \/
                 
                 YStepOK(P, ev.Y, YArg(P, TLCEval([i \in 1..P.A.nr |-> P.c[i] - P.bs * ev.Y[P.b[i]]]), ev.U), ev.rho)>> >>)
      [] ev.e = "setdict" -> LET c1 == [st.c EXCEPT !.D = ev.D]
                                 c == IF "B" \in DOMAIN ev THEN [c1 EXCEPT !.B = ev.B] ELSE c1 IN
                             OK([st EXCEPT !.c = c, !.P = BuildP(c)])
      [] ev.e = "setcoef" -> LET c == [st.c EXCEPT !.Z = ev.Z] IN
                             OK([st EXCEPT !.c = c, !.P = BuildP(c)])
      [] ev.e = "dict" ->
           LET cr == st.P.crop[1]  sh == st.P.crop[2]  ds == cr \o SubSeq(sh, Len(cr) + 1, Len(sh)) IN
           Verdict(st, << <<"dictionary", ev.sh = ds /\ \A i \in 1..Prod(ds) :
                               ev.v[i] = (IF st.c.cls \in PgClasses THEN st.last.X ELSE st.last.Y)[st.P.cropo + 1 + Ravel(sh, Unravel(ds, i - 1))]>> >>)
      [] ev.e = "ret" ->
           Verdict(st, << <<"solution returned by solve", IF ev.var = "X" THEN ev.v = Pick(st.P.rx, st.last.X)
                             ELSE IF ev.var = "Y" THEN ev.v = SubSeq(Pick(st.P.ry, st.last.Y), 1, Prod(ev.xsh))
                             ELSE ev.v = SubSeq(st.last.Y, ev.lo, ev.hi)>>,
                          <<"shape of the solution", ev.sh = ev.xsh>> >>)
      [] ev.e = "recon" ->
           LET x == IF ev.given THEN ev.x ELSE IF st.P.recy THEN Pick(st.P.ry, st.last.Y)
                    ELSE Pick(st.P.rx, st.last.X) IN
           Verdict(st, << <<"reconstruction", VNear(ev.v, Ap(st.P.rec, x), MaxRow(st.P.rec) + 2 + FrErr(st.P.rec, VMaxAbs(x)))>> >>)
      [] OTHER -> BAD(st, "unexpected exception")
Judge1(st, ev) == Judge0(st, ev)
=============================================================================
