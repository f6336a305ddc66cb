------------------------------- MODULE ParTrace -------------------------------
(***************************************************************************)
(* Judge for recorded runs of the grouped (parallel) convolutional sparse   *)
(* coding solver: with the filters partitioned into groups G_1 .. G_n,      *)
(*   min 1/2 |W (sum_g y_0g - s)|^2 + lam |wl1 y_1|_1                        *)
(*   s.t. sum_{m in G_g} d_m * x_m = y_0g,   al x = al y_1                   *)
(* The scaled variable al y_1 is used below.                                 *)
(***************************************************************************)
EXTENDS TraceDriver, SolversDef
Zeroed(D, M, lo, hi) ==      \* only filters lo .. hi - 1
    [D EXCEPT !.v = [i \in 1..Len(D.v) |-> LET m == (i - 1) % M IN IF m >= lo /\ m < hi THEN D.v[i] ELSE 0]]
ScaleOp(M, a) == RowScale(M, Const(M.nr, a))
(* groups: sizes as equal as possible, larger ones first *)
GrpStart(M, n, g) == LET q == M \div n  r == M % n IN (g - 1) * q + NMin(g - 1, r)
ParP(c) ==
    LET n == c.dimN
        L == CscLayout(c.D.sh, c.S.sh, c.dk, n)
        D == DShape(c, L)
        sh == L.shpX  nx == Prod(sh)
        t == Lift(c.S.v)
        W == Spread([sh |-> MShape(c.W.sh, L), v |-> c.W.v], L.Nv \o <<L.C, L.K, 1>>)
        q == [i \in 1..Len(W) |-> W[i] * W[i]]
        ops == [g \in 1..c.ng |-> ConvOp(Zeroed(D, L.M, GrpStart(L.M, c.ng, g), GrpStart(L.M, c.ng, g + 1)), L.Nv, L.C, L.K)]
        A == StackAll(ops \o <<ScaleOp(Eye(nx), c.pa)>>)
        nr == ops[1].nr
        w == Spread([sh |-> WShape(c.wl1.sh, L), v |-> c.wl1.v], sh)
        l1 == L1(Rng(c.ng * nr, nx), w, c.lm)
        zb == IF c.nbc THEN {i + c.ng * nr : i \in NoCross(sh, L.shpD, n)} ELSE {}
        gq == [k |-> "grpq", nr |-> nr, ng |-> c.ng, q |-> q, t |-> t]
        op == ConvOp(D, L.Nv, L.C, L.K)
    IN [Problem(<<>>, nx, A, Const(A.nr, 0), Rng(0, A.nr), A.nr, -1, <<gq, l1>>, <<FALSE, c.nn>>, zb,
                <<StQ("DFid", "y", Quad(op, q, t)), StP("RegL1", "y", [L1(Rng(0, nx), w, 16) EXCEPT !.lam = 16])>>,
                << <<"DFid", 16>>, <<"RegL1", c.lm * c.pa>> >>)
        EXCEPT !.rec = op, !.cropo = c.ng * nr]
(* solution in units of x from the scaled variable *)
Y1(P, c, Y) == TLCEval([i \in 1..P.nx |-> RDiv(Y[P.cropo + i], c.pa)])
StV(s, z) == IF s.k = "q" THEN QV(s.f, z) ELSE PieceVal(s.p, z)
StClauses(P, c, Y, st) ==
    LET z == Y1(P, c, Y) IN
    [j \in 1..Len(P.st) |-> <<P.st[j].n, Near(st[P.st[j].n], StV(P.st[j], z),
        NAbs(st[P.st[j].n]) \div 48 + 24 + (IF P.st[j].k = "q" THEN 4 * P.st[j].f.op.nr ELSE P.nx * 4))>>]
    \o << <<"objective", Near(st.ObjFun, Sum([j \in 1..Len(P.obj) |-> RDiv(P.obj[j][2] * st[P.obj[j][1]], 16)]), 12)>> >>
Judge1(st, ev) ==
    CASE ev.e = "init" /\ ev.cfg.cls = "none" -> OK(0)
      [] ev.e = "init" -> OK([c |-> ev.cfg, P |-> TLCEval(ParP(ev.cfg)), Y |-> <<>>, U |-> <<>>])
      [] ev.e = "start" ->
           LET P == st.P IN
           Verdict([st EXCEPT !.Y = ev.Y, !.U = ev.U], <<
             <<"sizes", Len(ev.Y) = P.ny /\ Len(ev.U) = P.A.nr>>,
             <<"initial variables", IF st.c.y0 THEN VNear(ev.Y, ev.Y0, 1) /\ VNear(ev.U, ev.U0, 1)
                                    ELSE /\ \A i \in 1..P.ny : ev.Y[i] = 0
                                         /\ \A i \in 1..P.A.nr : ev.U[i] = 0>> >>)
      [] ev.e = "iter" ->
           LET P == st.P  c == st.c
               axr == Relax(P, ev.X, st.Y, c.al)
               v == YArg(P, axr, st.U)
               ax == Ap(P.A, ev.X)
               r == TLCEval([i \in 1..P.A.nr |-> ax[i] - ev.Y[i]])
           IN Verdict([st EXCEPT !.Y = ev.Y, !.U = ev.U], <<
                <<"sizes", Len(ev.X) = P.nx /\ Len(ev.Y) = P.ny /\ Len(ev.U) = P.A.nr>>,
                <<"x step", XStepOK(P, ev.X, st.Y, st.U, ev.rho)>>,
                <<"y step", YStepOK(P, ev.Y, v, ev.rho)>>,
                <<"u step", UStepOK(P, ev.U, st.U, axr, ev.Y)>> >>
                \o StClauses(P, c, ev.Y, ev.st)
                \o << <<"primal residual", LET m == Nrm(r) IN Near(ev.r, m, m \div 40 + P.ty * (ISqrt(P.A.nr) + 1))>> >>)
      [] ev.e = "ret" ->
           \* the scaled variable carries c.pa times the rounding error
           LET z == Y1(st.P, st.c, st.Y) IN
           Verdict(st, << <<"solution returned by solve", VNear(ev.v, z, 1)>>,
                          <<"shape of the solution", ev.sh = ev.xsh>> >>)
      [] ev.e = "recon" ->
           Verdict(st, << <<"reconstruction", VNear(ev.v, Ap(st.P.rec, IF ev.given THEN ev.x ELSE Y1(st.P, st.c, st.Y)),
                                                    MaxRow(st.P.rec) * 2 + 2)>> >>)
      [] ev.e = "setdict" -> LET c == [st.c EXCEPT !.D = ev.D] IN
                             OK([st EXCEPT !.c = c, !.P = TLCEval(ParP(c))])
      [] ev.e = "other" ->     \* another execution of the same iterations
           Verdict(st, << <<"result independent of the " \o ev.how, VNear(ev.Y, st.Y, 1) /\ VNear(ev.U, st.U, 1)>>,
                          <<"number of iterations", ev.nit = ev.xnit>> >>
                       \o StClauses(st.P, st.c, ev.Y, ev.st))
      [] OTHER -> BAD(st, "unexpected exception")
=============================================================================
