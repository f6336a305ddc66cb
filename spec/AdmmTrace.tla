----------------------------- MODULE AdmmTrace -----------------------------
(* Judges recorded runs of solver classes built on the ADMM base classes.   *)
(* Scope selects the clause group: "loop", "rho" or "alg".                  *)
EXTENDS TraceDriver
CONSTANT Scope
M == INSTANCE Admm WITH MaxIters <- 0, MaxSolves <- 0, k <- 0, stats <- 0,
        left <- 0, phase <- 0, nsolve <- 0, o <- 0, rexp <- 0, uexp <- 0,
        total <- 0, log <- 0
N == INSTANCE Num

In(sc) == Scope = sc
(* clause c applies only in scope sc *)
C(sc, name, b) == <<name, ~In(sc) \/ b>>

TolV == 3           \* 1/1024 units
TolR(x) == 6 + N!NAbs(x) \div 64

(* expected residuals and tolerances, in units 1/1024 *)
Nz(x) == IF x = 0 THEN 1 ELSE x
RhoMul(rho, v) == \* rho (1/16384) times v (1/16384), in 1/1024
    IF rho < 65536 THEN ((v \div 16) * (rho \div 4)) \div 4096
    ELSE IF rho < 4194304 THEN ((v \div 16) * (rho \div 256)) \div 64
    ELSE 0
Measurable(rho) == rho < 140000

Exp(s, ev, utmp) ==
    IF ~Measurable(s.rho) THEN [r |-> 0, s |-> 0, ep |-> 0, ed |-> 0, thin |-> TRUE]
    ELSE
    LET P == s.P
        o == s.o
        R == M!PrimR(P, ev.X, ev.Y)
        D == M!DualDir(P, N!VSub(ev.Y, s.Y))           \* without rho
        rn == M!PrimN(P, ev.X, ev.Y)
        un == M!DualN(P, utmp)                          \* without rho
        sn == RhoMul(s.rho, un)
    IN IF o.std
       THEN [r |-> R \div 16, s |-> RhoMul(s.rho, D), thin |-> FALSE,
             ep |-> (o.snc * o.abs) \div 1024 + ((rn \div 16) * o.rel) \div 1024,
             ed |-> (o.snx * o.abs) \div 1024 + (sn * o.rel) \div 1024]
       ELSE LET rn1 == IF rn = 0 THEN 1024 ELSE Nz(rn \div 16)
            IN [r |-> (R * 64) \div rn1,
                s |-> IF un = 0 THEN RhoMul(s.rho, D) ELSE (D * 64) \div Nz(un \div 16),
                thin |-> un # 0 /\ (un < 3200 \/ sn < 200),
                ep |-> (o.snc * o.abs) \div rn1 + o.rel,
                ed |-> (o.snx * o.abs) \div (IF un = 0 THEN 1024 ELSE Nz(sn)) + o.rel]

(* relative comparison of small fixed point numbers; skip when the divisor  *)
(* is too small for the fixed point to be meaningful                        *)
Close(a, b) == N!Near(a, b, TolR(b) + 4)

(* observed factor q = rho'/rho in units 1/4096 *)
QOK(o, dir, ev) ==
    LET f == IF o.autos THEN ev.amul ELSE (4096 * o.tau[1]) \div o.tau[2]
        \* the automatic factor is min(tau, sqrt(ratio)); amul = its ratio
        t == (4096 * o.tau[1]) \div o.tau[2]
        g == IF o.autos THEN N!NMin(t, f) ELSE t
    IN IF dir = 1 THEN N!Near(ev.q, g, 4 + g \div 512)
       ELSE N!Near(ev.q, (4096 * 4096) \div g, 8)

ObjOK(s, ev) ==
    LET st == ev.st
        o == s.o
        L(w, v) == N!Dot(w, v)
        n == Len(s.Y)
        xb(b) == SubSeq(ev.X, (b - 1) * n + 1, b * n)
        mean(i) == N!Sum([b \in 1..o.nb |-> o.wts[b] * xb(b)[i]])
        AXc(i) == M!Resid([s.P EXCEPT !.B = [r \in 1..Len(s.P.c) |-> [q \in 1..n |-> 0]]], ev.X, ev.Y)[i]
    IN CASE o.ty = "gen" ->
              /\ N!Near(st.f, L(<<1, 2>>, ev.X), 3)
              /\ N!Near(st.g, L(<<3, -1>>, ev.Y), 3)
              /\ N!Near(st.obj, st.f + st.g, 3)
         [] o.ty = "eq" ->
              /\ N!Near(st.f, L(<<1, 2>>, IF o.evx THEN ev.X ELSE ev.Y), 3)
              /\ N!Near(st.g, L(<<3, -1>>, IF o.evy THEN ev.Y ELSE ev.X), 3)
              /\ N!Near(st.obj, st.f + st.g, 3)
         [] o.ty = "two" ->
              /\ N!Near(st.f, L(<<1, 2>>, ev.X), 3)
              /\ N!Near(st.g, IF o.aux THEN L(<<3, -1>>, <<ev.Y[1], ev.Y[2]>>)
                              ELSE L(<<3, -1>>, <<AXc(1), AXc(2)>>), 3)
              /\ N!Near(st.g1, IF o.aux THEN 2 * ev.Y[3] ELSE 2 * AXc(3), 3)
              /\ N!Near(st.obj, st.f + st.g + st.g1, 3)
         [] OTHER ->
              LET fi(b) == o.fw[b] * b * L(<<1, 2>>, IF o.evx THEN xb(b) ELSE ev.Y)
                  gv == IF o.evy THEN L(<<3, -1>>, ev.Y) * o.wsum
                        ELSE L(<<3, -1>>, [i \in 1..n |-> mean(i)])
              IN /\ N!Near(st.f, N!Sum([b \in 1..o.nb |-> fi(b)]), 3)
                 /\ N!Near(st.g * o.wsum, gv, 20)
                 /\ N!Near(st.obj, st.f + st.g, 3)

ProxOK(s, ev) ==
    s.o.ty \in {"cons", "wcons"} =>
      LET n == Len(s.Y)
          al == M!RelaxAX(s.P, s.o.al, ev.X, s.Y)
          AU(b, i) == al[(b - 1) * n + i] + s.U[(b - 1) * n + i]
      IN /\ \A i \in 1..n :
              N!Near(ev.pv[i] * s.o.wsum,
                     N!Sum([b \in 1..s.o.nb |-> s.o.wts[b] * AU(b, i)]),
                     4 * s.o.wsum)
         /\ s.rho < 134217728 => N!Near(ev.prho, s.o.wsum * s.rho, 8)

ItJudge(s, ev) ==
    LET P == s.P
        o == s.o
        utmp == M!DualStep(P, o.al, s.U, ev.X, ev.Y, s.Y)
        e == Exp(s, ev, utmp)
        st == ev.st
        due == M!RhoDue(o, s.k)
        dir == IF due THEN M!RhoDir(ev.c1, ev.c2) ELSE 0
        amb == ev.c1 = 2 \/ ev.c2 = 2
        chk == st.has /\ Measurable(s.rho)
        s2 == [s EXCEPT !.k = s.k + 1, !.X = ev.X, !.Y = ev.Y, !.U = ev.U,
                        !.rho = ev.rho, !.left = s.left - 1,
                        !.nst = s.nst + (IF M!StatsOn(o) THEN 1 ELSE 0),
                        !.stop = IF amb THEN ev.last ELSE
                                 M!StopNow(o, ev.cr, ev.cs, ev.cb)]
    IN Verdict(s2, <<
        C("loop", "iteration after the iteration limit", s.left > 0),
        C("loop", "iteration after a stop condition", ~s.stop),
        C("loop", "iteration count seen by the callback", ev.k = s.k),
        C("loop", "one x update then one y update per iteration",
          ev.nx = 1 /\ ev.ny = 1 /\ ev.xfirst),
        C("loop", "statistics recorded iff not in fast mode",
          ev.nstat = s2.nst /\ st.has = M!StatsOn(o)),
        C("loop", "recorded iteration number", st.has => st.iter = s.k),
        C("loop", "recorded time is the selected timer", st.has => st.time >= ev.tlo /\ st.time <= ev.thi),
        C("loop", "previous-iteration state untouched between iterations",
          ev.kept),
        (* algebra *)
        C("alg", "dual update U + A X + B Y - c (relaxed)",
          ~ev.q = 4096 \/ N!VNear(ev.U, utmp, TolV)),
        C("alg", "x update sees the current Y, U and rho",
          ev.xsee),
        C("alg", "y update sees relaxed A X and current U",
          N!VNear(ev.yAX, M!RelaxAX(P, o.al, ev.X, s.Y), TolV)
            /\ N!VNear(ev.yU, s.U, TolV)),
        C("alg", "primal residual", chk => Close(st.r, e.r)),
        C("alg", "dual residual", chk /\ ~e.thin => Close(st.s, e.s)),
        C("alg", "primal tolerance", chk => Close(st.ep, e.ep)),
        C("alg", "dual tolerance", chk /\ ~e.thin => Close(st.ed, e.ed)),
        C("alg", "objective components", st.has => ObjOK(s, ev)),
        C("alg", "consensus averaging", ProxOK(s, ev)),
        (* penalty adaptation *)
        C("rho", "recorded penalty is the one used in the iteration",
          st.has => N!Near(st.rho, s.rho, 2)),
        C("rho", "penalty unchanged unless adaptation is due",
          (~due \/ (dir = 0 /\ ~amb)) => ev.q = 4096),
        C("rho", "penalty scaled by the configured factor",
          (due /\ dir # 0 /\ ~amb) => QOK(o, dir, ev)),
        C("rho", "penalty never below/above one scaling step",
          N!Near(ev.q, 4096, 0) \/ (ev.q * o.tau[2] <= (4096 + 2) * o.tau[1]
                      /\ ev.q * o.tau[1] >= (4096 - 8) * o.tau[2])),
        C("rho", "scaled dual variable rescaled with the penalty",
          \A i \in 1..Len(utmp) :
             N!Near(ev.U[i] * (ev.q \div 16), utmp[i] * 256,
                    4 * 1024 + N!NAbs(utmp[i]) * 4)),
        C("rho", "penalty change notification iff changed",
          ev.nrc = (IF ev.q = 4096 THEN 0 ELSE 1))
       >>)

AdmmJudge(s, ev) ==
    CASE ev.e = "init" ->
           OK([P |-> ev.P, o |-> ev.o, X |-> <<>>, Y |-> ev.Y0, U |-> ev.U0,
               rho |-> ev.rho0, k |-> 0, nst |-> 0, left |-> 0, stop |-> TRUE])
      [] ev.e = "start" ->
           Verdict([s EXCEPT !.left = ev.max, !.stop = FALSE],
             << C("alg", "initial values", N!VNear(ev.Y, s.Y, 0) /\ N!VNear(ev.U, s.U, 0)),
                C("rho", "penalty unchanged between solves", N!Near(ev.rho, s.rho, 2)) >>)
      [] ev.e = "it" -> ItJudge(s, ev)
      [] ev.e = "ret" ->
           Verdict(s, <<
             C("loop", "stopped without a stop condition", s.stop \/ s.left = 0),
             C("loop", "iteration counter after solve", ev.k = s.k),
             C("loop", "number of recorded statistics", ev.nstat = s.nst),
             C("loop", "statistics retrieval matches the records",
               ev.iters = [i \in 1..s.nst |-> i - 1]),
             C("loop", "returned variable",
               IF s.X = <<>> THEN TRUE
               ELSE LET v == CASE s.o.ty = "gen" -> s.X
                               [] s.o.ty = "eq" -> IF s.o.retx THEN s.X ELSE s.Y
                               [] s.o.ty = "two" ->
                                    (CASE s.o.ret = "X" -> s.X
                                       [] s.o.ret = "Y0" -> <<s.Y[1], s.Y[2]>>
                                       [] OTHER -> <<s.Y[3]>>)
                               [] OTHER -> s.Y
                    IN N!VNear(ev.v, v, 0)) >>)
      [] OTHER -> BAD(s, "unexpected exception")
=============================================================================
