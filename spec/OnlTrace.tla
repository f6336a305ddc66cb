------------------------------- MODULE OnlTrace -------------------------------
(***************************************************************************)
(* Judge for recorded runs of online dictionary learning: every call codes   *)
(* the given signals with the current dictionary and then makes one          *)
(* projected stochastic gradient step of the dictionary for these signals.   *)
(***************************************************************************)
EXTENDS DlTrace

(* constraint set, on arrays mx \o <<Cd, 1, M>> *)
OShape(c) == MaxSupOf(c) \o <<c.Cd, 1, c.M>>
ODict(c) == LET sh == OShape(c) IN
            DictP(Groups(sh, 1..(Len(c.Nv) + 2), 0),
                  [m \in 1..c.M |-> [ch \in 1..c.Cd |-> LET sp == c.sup[m] IN
                     [j \in 1..Prod(sp) |-> Ravel(Take(sh, Len(c.Nv) + 2), Unravel(sp, j - 1) \o <<ch - 1, 0>>) + 1]]],
                  c.zm, FALSE)
(* the array with the dictionary at the origin of the signal support *)
PadTo(c, Nv, D) ==
    LET sh == OShape(c)  fs == Nv \o <<c.Cd, 1, c.M>>  n == Len(Nv) IN
    TLCEval([i \in 1..Prod(fs) |-> LET ix == Unravel(fs, i - 1) IN
        IF \A d \in 1..n : ix[d] < sh[d] THEN D[Ravel(sh, ix) + 1] ELSE 0])
CropTo(c, Nv, G) ==
    LET sh == OShape(c)  fs == Nv \o <<c.Cd, 1, c.M>> IN
    TLCEval([i \in 1..Prod(sh) |-> G[Ravel(fs, Unravel(sh, i - 1)) + 1]])
(* the data term as a function of the dictionary *)
ODat(st) ==
    LET x == st.x.c
        L == CscLayout(x.D.sh, x.S.sh, x.dk, x.dimN)
        op == Frac(DictOp([sh |-> L.Nv \o <<L.Cx, L.K, L.M>>, v |-> XVar(st)], L.Nv, L.C, L.Cd, FALSE),
                   1..Prod(L.Nv \o <<L.C, L.K>>))
        W == Spread([sh |-> MShape(x.W.sh, L), v |-> x.W.v], L.Nv \o <<L.C, L.K, 1>>)
        f == Quad(op, [i \in 1..Len(W) |-> W[i] * W[i]], Lift(x.S.v))
    IN [f |-> <<f>>, nx |-> op.nc, tf |-> FTol(f), Nv |-> L.Nv]
JudgeO(st, ev) ==
    CASE ev.e = "init" /\ ev.cfg.cls = "none" -> OK(0)
      [] ev.e = "init" -> OK([c |-> ev.cfg, D |-> <<>>, j |-> 0, x |-> [c |-> 0, last |-> NoIter], P |-> 0, nx |-> 0, nxi |-> 0])
      [] ev.e = "ostart" ->
           Verdict([st EXCEPT !.D = ev.D], <<
             <<"shape of the dictionary", ev.sh = OShape(st.c)>>,
             <<"initial dictionary", PieceOK(ODict(st.c), ev.D, Lift(st.c.D0.v), 256, 3, FALSE, {})>> >>)
      [] ev.e = "call" ->
           LET c == [ev.x EXCEPT !.D.v = st.D] IN
           OK([st EXCEPT !.x = [c |-> c, last |-> NoIter], !.P = FracP(c, BuildP(c)), !.nx = ev.nx, !.nxi = 0])
      [] ev.e = "half" ->
           LET r == IF ev.sub = "step" THEN StepJudge(st.x, st.P, ev) ELSE SubJudge(st.x, st.P, ev) IN
           [st |-> [st EXCEPT !.x = r.S, !.nxi = @ + 1],
            bad |-> IF r.bad # "" THEN "x update: " \o r.bad
                    ELSE IF st.nxi = 0 /\ ~(Zer(ev.Yp) /\ Zer(ev.Up)) THEN "initial coefficients" ELSE ""]
      [] ev.e = "dstep" ->
           LET c == st.c
               P == ODat(st)
               d == PadTo(c, P.Nv, st.D)
               q == c.eb + 4 * st.j          \* step size ea / q
               g == GradF(P, d)
               gm == VMaxAbs(g)
               h == TLCEval([i \in 1..P.nx |-> MD(g[i], c.ea, q)])
               G == TLCEval([i \in 1..P.nx |-> d[i] - h[i]])
               t == 3 + MD(P.tf + FrTolF(P, d, UU), c.ea, q)
               Dn == PadTo(c, P.Nv, ev.D)
               s4 == ISqrt(P.nx) + 1
           IN Verdict([st EXCEPT !.D = ev.D, !.j = @ + 1], <<
                <<"number of sparse coding iterations", st.nxi = ev.wxi>>,
                <<"dictionary step", PieceOK(ODict(c), ev.D, CropTo(c, P.Nv, G), 256, t, FALSE, {})>>,
                <<"dictionary returned", ev.ret = ev.D>>,
                <<"iteration number", ev.it = st.j>>,
                <<"step size", Near(ev.eta, MD(UU, c.ea, q), 1)>>,
                <<"constraint violation", gm > 300000 \/
                      NearV(ev.cnstr, RDiv(Nrm(TLCEval(VSub(Dn, G))), 4), (t * s4) \div 4 + 8)>>,
                <<"change of the dictionary", NearV(ev.dd, RDiv(Nrm(TLCEval(VSub(ev.D, st.D))), 4), 8)>>,
                <<"statistics of the sparse coding", \A n \in DOMAIN ev.o : n \in DOMAIN ev.x /\ ev.o[n] = ev.x[n]>> >>)
      [] OTHER -> BAD(st, "unexpected exception")
=============================================================================
