------------------------------ MODULE PgmTrace ------------------------------
(* Judges recorded runs of solver classes built on the PGM base classes.    *)
EXTENDS TraceDriver
M == INSTANCE Pgm WITH MaxIters <- 0, MaxSolves <- 0, MaxBt <- 0, k <- 0,
        stats <- 0, left <- 0, phase <- 0, nsolve <- 0, o <- 0, L <- 0,
        tries <- 0, obj <- 0, x <- 0, total <- 0
N == INSTANCE Num
U == 1024

MaxA(v) == N!VMaxAbs(v)
(* expected iterate after attempt a *)
XAfter(s, a) == IF M!Reverts(s.o, s.k, a.c) THEN s.X ELSE a.P
FAfter(s, a) == IF M!Reverts(s.o, s.k, a.c) THEN a.fq ELSE a.fp
QAfter(s, a) == M!QModel(a.fy, M!Grad(s.o.h, s.o.b, a.Y), a.L, XAfter(s, a), a.Y)
QTol(s, a) == LET d == MaxA(N!VSub(XAfter(s, a), a.Y)) IN
              60 + (M!Mul(a.L, d) \div 128) + MaxA(M!Grad(s.o.h, s.o.b, a.Y)) \div 128

(* gradient step of attempt a:  L (y - v) = grad f(y) *)
StepOK(s, a) ==
    \A i \in 1..Len(a.V) :
       LET g == M!Grad(s.o.h, s.o.b, a.Y)[i]
           d == a.Y[i] - a.V[i] IN
       N!Near(M!Mul(a.L, d), g, 6 + a.L \div 512 + N!NAbs(d) \div 512 + s.o.h[i])

Rat(q, v) == (v * q[1]) \div q[2]
LNear(a, b) == N!Near(a, b, 3 + b \div 256)

(* step parameter of the first attempt *)
PolicyL(s, ev) ==
    LET g == M!Grad(s.o.h, s.o.b, s.Y)
        den == IF s.o.ssp = "cauchy" THEN M!InnerQ(g, g)
               ELSE M!InnerQ(N!VSub(s.X, s.Xp), N!VSub(g, s.gp))
        dg == N!VSub(g, s.gp)
        num == IF s.o.ssp = "cauchy"
               THEN M!InnerQ(g, [i \in 1..Len(g) |-> s.o.h[i] * g[i]])
               ELSE M!InnerQ(dg, dg)
        obs == ev.at[1].L
    IN \/ N!NAbs(den) < 256            \* too close to a 0/0 to be judged
       \/ s.o.ssp = "bb" /\ s.o.ty = "dft"
       \/ IF num < 0 \/ den < 0 THEN LNear(obs, s.L)
          ELSE N!Near(M!Mul(obs, den), num, 40 + num \div 32 + (4 * obs) \div 1024)

FirstL(s, ev) ==
    CASE s.o.bt = "rob" -> LNear(ev.at[1].L, Rat(s.o.gd, s.L))
      [] s.o.bt = "none" /\ s.o.ssp # "none" /\ s.k > 1 -> PolicyL(s, ev)
      [] OTHER -> LNear(ev.at[1].L, s.L)

(* auxiliary iterate of attempt a *)
AuxOK(s, a) ==
    IF s.o.bt # "rob" THEN N!VNear(a.Y, s.Y, s.o.xtol)
    ELSE LET t == M!RobustT(a.L, s.Tk)
             T == s.Tk + t IN
         \A i \in 1..Len(a.Y) :
            N!Near(M!Mul(T, a.Y[i]), M!Mul(s.Tk, s.X[i]) + M!Mul(t, s.Z[i]),
                   30 + T \div 32 + (MaxA(s.Z) + MaxA(s.X)) \div 32)

ItJudge(s, ev) ==
    LET o == s.o
        n == Len(ev.at)
        la == ev.at[n]
        mono == o.mono /\ s.k > 0
        t2 == IF o.bt = "rob" THEN s.t ELSE M!NextT(o.mom, s.t, s.k)
        rt == M!RobustT(la.L, s.Tk)
        st == ev.st
        q(j) == QAfter(s, ev.at[j])
        f(j) == FAfter(s, ev.at[j])
        fq == o.bt # "none" /\ o.ty = "gen"
        tie == \E j \in 1..n : ev.at[j].c = 2 /\ mono
        s2 == [s EXCEPT !.k = s.k + 1, !.X = ev.X, !.Xp = s.X, !.Y = ev.Y,
                 !.gp = M!Grad(o.h, o.b, s.Y), !.L = ev.L, !.t = t2,
                 !.left = s.left - 1,
                 !.Tk = IF o.bt = "rob" THEN s.Tk + rt ELSE 0,
                 !.Z = IF o.bt = "rob"
                       THEN [i \in 1..Len(s.X) |->
                               s.Z[i] + M!Mul(M!Mul(rt, ev.L), ev.X[i] - la.Y[i])]
                       ELSE <<>>,
                 !.nst = s.nst + (IF M!StatsOn(o) THEN 1 ELSE 0),
                 !.obj = IF st.has THEN st.obj ELSE s.obj,
                 !.hobj = st.has,
                 !.stop = M!StopNow(o, ev.cr, ev.cb), !.amb = (ev.cr = 2)]
        base == <<
          <<"iteration after the iteration limit", s.left > 0>>,
          <<"iteration after a stop condition", ~s.stop>>,
          <<"iteration count seen by the callback", ev.k = s.k>>,
          <<"statistics recorded iff not in fast mode",
             ev.nstat = s2.nst /\ st.has = M!StatsOn(o)>>,
          <<"recorded iteration number", st.has => st.iter = s.k>>,
          <<"recorded time is the selected timer",
             st.has /\ ~o.mono => st.time >= ev.tlo /\ st.time <= ev.thi>>,
          <<"number of proximal steps", n >= 1 /\ (o.bt = "none" => n = 1)>> >>
        num == <<
          <<"step parameter at the start of the iteration", FirstL(s, ev)>>,
          <<"gradient taken at the auxiliary iterate",
             \A j \in 1..n : AuxOK(s, ev.at[j])>>,
          <<"gradient step", \A j \in 1..n : StepOK(s, ev.at[j])>>,
          <<"line search limit", o.bt # "none" => n <= o.maxbt>>,
          <<"line search increases L by the configured factor",
             \A j \in 1..(n - 1) : LNear(ev.at[j + 1].L, Rat(o.gu, ev.at[j].L))>>,
          <<"line search continues only if the model is violated",
             fq => \A j \in 1..(n - 1) : f(j) >= q(j) - QTol(s, ev.at[j])>>,
          <<"line search accepts only if the model holds",
             fq => (n = o.maxbt \/ f(n) <= q(n) + QTol(s, la))>>,
          <<"step parameter after the iteration",
             \/ LNear(ev.L, la.L)
                /\ (fq => f(n) <= q(n) + QTol(s, la))
             \/ o.bt # "none" /\ n = o.maxbt /\ LNear(ev.L, Rat(o.gu, la.L))
                /\ (fq => f(n) >= q(n) - QTol(s, la))>>,
          <<"recorded line search values",
             st.has /\ fq => /\ N!Near(st.F, f(n), QTol(s, la))
                             /\ N!Near(st.Q, q(n), QTol(s, la))>>,
          <<"recorded line search count", st.has /\ o.bt # "none" => st.bt = n>>,
          <<"recorded step parameter", st.has => N!Near(st.L, ev.L, 2)>>,
          <<"new iterate is the proximal step (or the previous one if monotone)",
             tie \/ N!VNear(ev.X, XAfter(s, la), o.xtol)>>,
          <<"objective never increases in monotone mode",
             st.has /\ s.hobj /\ mono => st.obj <= s.obj + 2>>,
          <<"objective evaluated at the current iterate",
             st.has => /\ N!Near(st.obj, ev.fx + ev.gx, 4)
                       /\ N!Near(st.f, ev.fx, 3) /\ N!Near(st.g, ev.gx, 3)>>,
          <<"momentum step",
             IF o.bt = "rob" THEN N!VNear(ev.Y, la.Y, 1)
             ELSE LET rhs == M!MomentumRHS(mono, s.t, la.P, ev.X, s.X) IN
                  \A i \in 1..Len(ev.X) :
                    N!Near(M!Mul(t2, ev.Y[i] - ev.X[i]), rhs[i],
                           12 + t2 \div 256 + (MaxA(ev.X) + MaxA(ev.Y) + MaxA(la.P)) \div 128)>>,
          <<"fixed point residual",
             st.has => IF o.ty = "dft" THEN N!Near(st.r, ev.ur, 1)
                       ELSE LET d == IF mono THEN N!VSub(ev.X, ev.Y)
                                     ELSE N!VSub(ev.X, s.Y) IN
                            N!Near(st.r, N!NormH(d) \div 16, 6 + st.r \div 64)>> >>
    IN IF n = 0 THEN BAD(s2, "number of proximal steps")
       ELSE IF ev.out THEN Verdict(s2, base)
       ELSE Verdict(s2, base \o num)

Degenerate(s) ==
    LET g == M!Grad(s.o.h, s.o.b, s.Y)
        dx == N!VSub(s.X, s.Xp)
        dg == N!VSub(g, s.gp) IN
    /\ s.o.bt = "none" /\ s.k > 1
    /\ \/ s.o.ssp = "cauchy" /\ MaxA(g) < 64
       \/ s.o.ssp = "bb" /\ N!NAbs(M!InnerQ(dx, dg)) < 512

PgmJudge(s, ev) ==
    CASE ev.e = "init" ->
           OK([o |-> ev.o, X |-> ev.X0, Xp |-> ev.X0, Y |-> ev.X0, gp |-> ev.X0,
               L |-> ev.L0, t |-> U, k |-> 0, nst |-> 0, left |-> 0,
               Tk |-> 0, Z |-> ev.X0, obj |-> 0, hobj |-> FALSE, stop |-> TRUE, amb |-> FALSE])
      [] ev.e = "start" ->
           Verdict([s EXCEPT !.left = ev.max, !.stop = FALSE, !.amb = FALSE],
             << <<"initial or retained iterates", N!VNear(ev.X, s.X, s.o.xtol) /\ N!VNear(ev.Y, s.Y, s.o.xtol)>>,
                <<"step parameter retained between solves", N!Near(ev.L, s.L, 1)>> >>)
      [] ev.e = "it" -> ItJudge(s, ev)
      [] ev.e = "nonfin" ->
           Verdict([s EXCEPT !.stop = TRUE], << <<"iterates remain finite", Degenerate(s)>> >>)
      [] ev.e = "ret" ->
           Verdict(s, <<
             <<"stopped without a stop condition", s.stop \/ s.left = 0 \/ s.amb>>,
             <<"iteration counter after solve", ev.k = s.k>>,
             <<"number of recorded statistics", ev.nstat = s.nst>>,
             <<"statistics retrieval matches the records",
               ev.iters = [i \in 1..s.nst |-> i - 1]>>,
             <<"returned variable", N!VNear(ev.v, s.X, 0)>> >>)
      [] OTHER -> BAD(s, "unexpected exception")
=============================================================================
