------------------------------ MODULE FourTrace ------------------------------
(* Judges recorded calls of sporco.fft and of the filters of sporco.signal.   *)
EXTENDS TraceDriver
F == INSTANCE Four
N == INSTANCE Num
Dm(ev) == [i \in 1..Len(ev.ax) |-> F!Dim(Len(ev.re.sh), ev.ax[i])]
ANear(X, Y, k, tol) == X.sh = Y.sh /\ \A i \in 1..Len(Y.v) : N!Near(X.v[i], k * Y.v[i], tol)
Last(s) == s[Len(s)]
Opj(ev) ==
  CASE ev.op = "fft" ->
         LET sh2 == F!FitShape(ev.re.sh, ev.s, Dm(ev)) IN
         F!DftOK(ev.Fr, ev.Fi, F!Fit(ev.re, sh2), F!Fit(ev.im, sh2), Dm(ev), sh2, -1, 1)
    [] ev.op = "ifft" ->
         LET sh2 == F!FitShape(ev.re.sh, ev.s, Dm(ev)) IN
         F!DftOK(ev.Fr, ev.Fi, F!Fit(ev.re, sh2), F!Fit(ev.im, sh2), Dm(ev), sh2, 1, F!Prod(ev.s))
    [] ev.op = "rfft" ->
         LET sh2 == F!FitShape(ev.re.sh, ev.s, Dm(ev))
             A == F!Fit(ev.re, sh2) IN
         F!DftOK(ev.Fr, ev.Fi, A, [A EXCEPT !.v = [i \in 1..Len(A.v) |-> 0]], Dm(ev),
                 F!HalfShape(sh2, Last(Dm(ev))), -1, 1)
    [] ev.op \in {"roundtrip"} -> ANear(ev.Fr, ev.re, 4096, 8) /\ ANear(ev.Fi, ev.im, 4096, 8)
    [] ev.op = "dct" -> F!DctOK(ev.Fr, ev.re, Dm(ev)) /\ ANear(ev.back, ev.re, 4096, 8)
    [] ev.op = "conv" ->
         \* complex product from four real convolutions
         LET C(X, Y) == F!Conv(X, Y, Dm(ev), ev.org)
             rr == C(ev.re, ev.br)  ii == C(ev.im, ev.bi)
             ri == C(ev.re, ev.bi)  ir == C(ev.im, ev.br) IN
         /\ ev.Fr.sh = rr.sh /\ ev.Fi.sh = rr.sh
         /\ \A i \in 1..Len(rr.v) :
              /\ N!Near(ev.Fr.v[i], 1024 * (rr.v[i] - ii.v[i]), 20)
              /\ N!Near(ev.Fi.v[i], 1024 * (ri.v[i] + ir.v[i]), 20)
    [] ev.op = "norm" -> N!Near(ev.val, 1024 * (N!SumSq(ev.re.v) + N!SumSq(ev.im.v)), 20)
    [] ev.op = "grad" -> ev.z = F!Grad(ev.re, F!Dim(Len(ev.re.sh), ev.axis), ev.zp)
    [] ev.op = "gradT" -> ev.z = F!GradT(ev.re, F!Dim(Len(ev.re.sh), ev.axis), ev.zp)
    [] ev.op = "gfilt" ->
         \* applying filter i computes the circular difference along axis i,
         \* and GHGf is the sum of their squared magnitudes
         /\ Len(ev.D) = Len(ev.ax)
         /\ \A i \in 1..Len(ev.ax) : ANear(ev.D[i], F!CDiff(ev.re, Dm(ev)[i]), 1024, 8)
         /\ ANear(ev.GG, ev.GS, 1, 4)
    [] ev.op = "tik" ->
         LET P == F!SymPad(ev.re, ev.npd) IN
         /\ ev.sp = P
         /\ F!TikOK(ev.lp0, P, ev.lm)
         /\ ev.lp.sh = ev.re.sh /\ ev.hp.sh = ev.re.sh
         /\ \A i \in 1..Len(ev.re.v) :
              LET ix == F!Unravel(ev.re.sh, i - 1)
                  jx == [d \in 1..Len(ix) |-> IF d <= 2 THEN ix[d] + ev.npd ELSE ix[d]] IN
              /\ N!Near(ev.lp.v[i], F!At(ev.lp0, jx), 8)
              /\ N!Near(ev.lp.v[i] + ev.hp.v[i], 4096 * ev.re.v[i], 8)
    [] ev.op = "alloc" ->
         /\ ev.sh1 = ev.sh /\ ev.dt1 = ev.dt
         /\ ev.sh2 = F!HalfShape(ev.sh, F!Dim(Len(ev.sh), Last(ev.ax))) /\ ev.dt2 = ev.cdt
         /\ ev.cd = ev.cdt /\ ev.rd = ev.rdt /\ ev.kept
    [] OTHER -> FALSE
FourJudge(s, ev) ==
    CASE ev.e = "init" -> OK(0)
      [] ev.e = "op" ->
           Verdict(0, << <<ev.name, Opj(ev)>>, <<"input array altered", ev.pure>>,
                         <<"precision", ev.prec>> >>)
      [] OTHER -> BAD(s, "unexpected exception")
=============================================================================
