------------------------------- MODULE DlTrace -------------------------------
(***************************************************************************)
(* Judge for recorded runs of dictionary learning: alternation of           *)
(* iterations of a sparse coding solver (half "x") for the current           *)
(* dictionary and of a dictionary update solver (half "d") for the current  *)
(* coefficients.  The problem of each half is built from the state of the    *)
(* other one, with operator entries in 1/4096.                               *)
(***************************************************************************)
EXTENDS SolversTrace

(* rows of the constraint operator that depend on the other variable *)
FracRows(c, P) ==
    CASE c.cls \in {"ConvBPDNMaskDcpl", "ConvCnstrMODMaskDcpl_IterSM", "ConvCnstrMODMaskDcpl_CG"} -> 1..P.rec.nr
      [] c.cls = "ConvCnstrMODMaskDcpl_Consensus" -> (P.nx + 1)..P.A.nr
      [] OTHER -> {}
FracF(f) == [f EXCEPT !.op = Frac(f.op, 1..f.op.nr)]
FracP(c, P) ==
    LET rs == FracRows(c, P)
        A == IF rs = {} THEN P.A ELSE Frac(P.A, rs)
        f == TLCEval([j \in 1..Len(P.f) |-> FracF(P.f[j])])
        r == NMax(1, MaxRow(A))  k == NMax(1, MaxCol(A))
    IN TLCEval([P EXCEPT !.A = A, !.f = f, !.rec = Frac(P.rec, 1..P.rec.nr), !.tf = SumF(f),
                 !.st = [j \in 1..Len(P.st) |-> IF P.st[j].k = "q" THEN [P.st[j] EXCEPT !.f = FracF(P.st[j].f)] ELSE P.st[j]],
                 !.ta = (r * k) \div 2 + k + 1, !.ty = r + 3])
(* tolerances for the variables of one event *)
AddErr(P, mx) == [P EXCEPT !.ty = P.ty + FrErr(P.A, mx)]
Only(P, st) ==     \* functional terms that were recorded
    [P EXCEPT !.st = SelectSeq(P.st, LAMBDA s : s.n \in DOMAIN st),
              !.obj = IF "ObjFun" \in DOMAIN st THEN P.obj ELSE <<>>]

IsPgm(c) == c.cls \in PgClasses
DVar(st) == IF IsPgm(st.d.c) THEN st.d.last.X ELSE st.d.last.Y
XVar(st) == IF IsPgm(st.x.c) THEN st.x.last.X
            ELSE IF st.x.c.cls = "ConvBPDNMaskDcpl" THEN SubSeq(st.x.last.Y, Len(st.x.last.Y) - st.nx + 1, Len(st.x.last.Y))
            ELSE st.x.last.Y
(* current dictionary (cropped) *)
CropD(st, v) ==
    IF Len(st.dP0.crop) = 0 THEN v
    ELSE LET cr == st.dP0.crop[1]  sh == st.dP0.crop[2]  ds == cr \o SubSeq(sh, Len(cr) + 1, Len(sh)) IN
         TLCEval([i \in 1..Prod(ds) |-> v[st.dP0.cropo + 1 + Ravel(sh, Unravel(ds, i - 1))]])
Dict(st) == CropD(st, DVar(st))
XProb(st) == LET c == [st.x.c EXCEPT !.D.v = Dict(st)] IN FracP(c, BuildP(c))
DProb(st) == LET c == IF "Z" \in DOMAIN st.d.c THEN [st.d.c EXCEPT !.Z.v = XVar(st)] ELSE [st.d.c EXCEPT !.D.v = XVar(st)] IN
             FracP(c, BuildP(c))
DictPieceNo(P) == CHOOSE j \in 1..Len(P.g) : P.g[j].k = "dict"
OnlyDict(P) == P.g[DictPieceNo(P)]
(* the initial dictionary: projection of the given one *)
Pad(st) ==
    IF Len(st.dP0.crop) = 0 THEN Lift(st.c.D0.v)
    ELSE LET cr == st.dP0.crop[1]  sh == st.dP0.crop[2]  ds == cr \o SubSeq(sh, Len(cr) + 1, Len(sh))
             n == Len(cr) IN
         Const(st.dP0.cropo, 0) \o
         [i \in 1..Prod(sh) |-> LET ix == Unravel(sh, i - 1) IN
             IF \A d \in 1..n : ix[d] < cr[d] THEN UU * st.c.D0.v[Ravel(ds, ix) + 1] ELSE 0]
Zer(v) == \A i \in 1..Len(v) : v[i] = 0
(* names of the fields of the statistics *)
XNames == [ObjFun |-> "ObjFun", DFid |-> "DFid", RegL1 |-> "RegL1", XPrRsdl |-> "PrimalRsdl", XDlRsdl |-> "DualRsdl",
           XRho |-> "Rho", X_F_Btrack |-> "F_Btrack", X_Q_Btrack |-> "Q_Btrack", X_ItBt |-> "IterBTrack", X_L |-> "L",
           X_Rsdl |-> "Rsdl", XRsdl |-> "Rsdl", XL |-> "L"]
DNames == [Cnstr |-> "Cnstr", DPrRsdl |-> "PrimalRsdl", DDlRsdl |-> "DualRsdl", DRho |-> "Rho", D_F_Btrack |-> "F_Btrack",
           D_Q_Btrack |-> "Q_Btrack", D_ItBt |-> "IterBTrack", D_L |-> "L", D_Rsdl |-> "Rsdl", DRsdl |-> "Rsdl", DL |-> "L"]
Acc3 == {"ObjFun", "DFid", "RegL1"}
FieldOK(st, ev, n) ==
    \/ n \in Acc3 /\ st.c.acc
    \/ n \in DOMAIN XNames /\ XNames[n] \in DOMAIN ev.x /\ ev.o[n] = ev.x[XNames[n]]
    \/ n \in DOMAIN DNames /\ DNames[n] \in DOMAIN ev.d /\ ev.o[n] = ev.d[DNames[n]]
(* functional at the current dictionary and coefficients *)
AccOK(st, o) ==
    LET P == AddErr(XProb(st), VMaxAbs(XVar(st)))
        x == XVar(st)
        mk == st.x.c.cls = "ConvBPDNMaskDcpl"
        f == IF mk THEN Quad(P.rec, P.g[1].w, SubSeq(P.c, 1, P.rec.nr)) ELSE P.f[1]
        p1 == LET j == CHOOSE j \in 1..Len(P.g) : P.g[j].k = "l1" IN [P.g[j] EXCEPT !.ix = Rng(0, P.nx)]
    IN << <<"data fidelity of the updated variables", NearV(o.DFid, QV(f, x), 4 * f.op.nr + QvErr(f, x))>>,
          <<"l1 norm of the updated variables", NearV(o.RegL1, PieceVal(p1, x), Len(x) * 4)>>,
          <<"objective of the updated variables", Near(o.ObjFun, o.DFid + RDiv(st.x.c.lm * o.RegL1, 16), 8)>> >>
SubJudge(S, P, ev) ==
    LET st1 == [c |-> S.c, P |-> AddErr(Only(P, IF "st" \in DOMAIN ev THEN ev.st ELSE <<>>),
                                        NMax(VMaxAbs(ev.X), VMaxAbs(ev.Yp))), last |-> S.last]
        \* the first iteration has no predecessor
        r == Judge0(st1, [ev EXCEPT !.e = ev.sub])
    IN [bad |-> r.bad, S |-> [S EXCEPT !.last = r.st.last]]
(* one iteration of which only the variables are known *)
StepJudge(S, P0, ev) ==
    LET P == AddErr(P0, NMax(VMaxAbs(ev.X), VMaxAbs(ev.Yp)))
        axr == Relax(P, ev.X, ev.Yp, S.c.al)
        v == TLCEval(YArg(P, axr, ev.Up)) IN
    [S |-> [S EXCEPT !.last = ev],
     bad |-> FirstBad(<<
        <<"sizes", Len(ev.X) = P.nx /\ Len(ev.Y) = P.ny /\ Len(ev.U) = P.A.nr /\ Len(ev.Yp) = P.ny /\ Len(ev.Up) = P.A.nr>>,
        <<"state carried between iterations", S.last.k = 0 \/ (ev.Yp = S.last.Y /\ ev.Up = S.last.U)>>,
        <<"x step", XStepOK(P, ev.X, ev.Yp, ev.Up, ev.rho)>>,
        <<"y step", YStepOK(P, ev.Y, v, ev.rho)>>,
        <<"u step", UStepOK(P, ev.U, ev.Up, axr, ev.Y)>> >>)]
JudgeD(st, ev) ==
    CASE ev.e = "init" /\ ev.cfg.cls = "none" -> OK(0)
      [] ev.e = "init" ->
           OK([c |-> ev.cfg, x |-> [c |-> ev.cfg.x, last |-> NoIter], d |-> [c |-> ev.cfg.d, last |-> NoIter],
               dP0 |-> BuildP(ev.cfg.d), own |-> "", P |-> 0, nx |-> 0, j |-> 0])
      [] ev.e = "start" ->
           LET s1 == [st EXCEPT !.x.last = [k |-> 0, X |-> ev.xX, Y |-> ev.xY], !.d.last = [k |-> 0, X |-> ev.dX, Y |-> ev.dY],
                                !.nx = ev.nx]
               P == st.dP0
               v == IF IsPgm(st.d.c) THEN ev.dX ELSE ev.dY
               dp == OnlyDict(P)
               oth == IF Len(P.crop) = 0 THEN <<>> ELSE SubSeq(v, 1, P.cropo) IN
           Verdict(s1, << <<"initial dictionary", LET w == Pad(st) IN
                              /\ PieceOK(dp, v, w, 256, 3, FALSE, {})
                              /\ Zer(oth)>>,
                          <<"dictionary of the sparse coding solver", VNear(ev.D, CropD(st, v), 1)>>,
                          <<"initial coefficients", ev.xX = ev.x0 /\ ev.xY = ev.x0>> >>)
      [] ev.e = "half" ->
           LET P == IF st.own = ev.w THEN st.P ELSE IF ev.w = "x" THEN XProb(st) ELSE DProb(st)
               S == IF ev.w = "x" THEN st.x ELSE st.d
               r == IF ev.sub = "step" THEN StepJudge(S, P, ev) ELSE SubJudge(S, P, ev)
               s1 == [st EXCEPT !.own = ev.w, !.P = P] IN
           [st |-> IF ev.w = "x" THEN [s1 EXCEPT !.x = r.S] ELSE [s1 EXCEPT !.d = r.S],
            bad |-> IF r.bad = "" THEN "" ELSE ev.w \o " update: " \o r.bad]
      [] ev.e = "out" ->
           Verdict([st EXCEPT !.j = @ + 1],
             << <<"iteration number", ev.it = st.j>>,
                <<"number of updates", ev.nxi = ev.wxi /\ ev.ndi = ev.wdi>>,
                <<"statistics of the two updates", \A n \in DOMAIN ev.o : FieldOK(st, ev, n)>> >>
             \o (IF st.c.acc THEN AccOK(st, ev.o) ELSE <<>>))
      [] ev.e = "ret" ->
           Verdict(st, << <<"number of iterations", ev.n = st.j>>,
                          <<"dictionary returned", VNear(ev.v, Dict(st), 0)>>,
                          <<"full size dictionary", VNear(ev.full, IF Len(st.dP0.crop) = 0 THEN DVar(st)
                               ELSE SubSeq(DVar(st), st.dP0.cropo + 1, st.dP0.cropo + Prod(st.dP0.crop[2])), 0)>>,
                          <<"coefficients", VNear(ev.x, XVar(st), 0)>>,
                          <<"shapes", ev.sh = ev.xsh /\ ev.dsh = ev.xdsh>> >>)
      [] ev.e = "other" ->      \* another execution of the same iterations
           Verdict(st, << <<"result independent of the " \o ev.how, VNear(ev.v, Dict(st), 1) /\ VNear(ev.x, XVar(st), 1)>>,
                          <<"number of iterations", ev.n = st.j>> >> \o AccOK(st, ev.o))
      [] ev.e = "recon" ->
           LET c == [st.x.c EXCEPT !.D.v = IF ev.dgiven THEN ev.D ELSE Dict(st)]
               P == FracP(c, BuildP(c))
               x == IF ev.given THEN ev.X ELSE XVar(st) IN
           Verdict(st, << <<"reconstruction", VNear(ev.v, Ap(P.rec, x), MaxRow(P.rec) + 3 + FrErr(P.rec, VMaxAbs(x)))>> >>)
      [] OTHER -> BAD(st, "unexpected exception")
=============================================================================
