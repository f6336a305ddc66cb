-------------------------------- MODULE Admm --------------------------------
(***************************************************************************)
(* The ADMM iteration for                                                   *)
(*      minimise f(x) + g(y)   subject to  A x + B y = c                    *)
(* as a state machine.  One step of the machine is one iteration of the     *)
(* solver; the x and y updates are chosen by the environment (they are      *)
(* supplied by the problem class), everything else is determined.           *)
(*                                                                          *)
(* Vectors are sequences of integers in units of 1/1024.  Rationals are     *)
(* <<num, den>>.  Penalty parameters are integers in units of 1/16384.      *)
(***************************************************************************)
EXTENDS Num

(* --- algebra of one iteration ------------------------------------------ *)
(* c: problem record with fields A, B, c (A, B integer matrices, c in units)*)
Resid(P, x, y) == VSub(VAdd(MatVec(P.A, x), MatVec(P.B, y)), P.c)

(* relaxed A x:  alpha A x - (1 - alpha) (B y_prev - c) *)
RelaxAX(P, al, x, yp) ==
    [i \in 1..Len(P.c) |->
       RDiv(al[1] * MatVec(P.A, x)[i]
            - (al[2] - al[1]) * (MatVec(P.B, yp)[i] - P.c[i]), al[2])]

(* scaled dual variable before any penalty rescaling *)
DualStep(P, al, u, x, y, yp) ==
    VAdd(u, VSub(VAdd(RelaxAX(P, al, x, yp), MatVec(P.B, y)), P.c))

(* --- residuals, in units 1/16384 --------------------------------------- *)
(* weighted consensus replaces A^T B dy and the weighting of r; w is the    *)
(* per-component square root of the weight (1 everywhere otherwise) and     *)
(* sa2 the sum of squared weights (0 otherwise)                             *)
Wt(P, v) == [i \in 1..Len(v) |-> P.w[i] * v[i]]
PrimR(P, x, y) == NormH(Wt(P, Resid(P, x, y)))
DualDir(P, dy) == IF P.sa2 = 0 THEN NormH(MatTVec(P.A, MatVec(P.B, dy)))
                  ELSE (ISqrt(P.sa2 * 65536) * NormH(dy)) \div 256
PrimN(P, x, y) ==
    NMax(NMax(NormH(Wt(P, MatVec(P.A, x))),
              IF P.sa2 = 0 THEN NormH(MatVec(P.B, y))
              ELSE (ISqrt(P.sa2 * 65536) * NormH(y)) \div 256),
         NormH(P.c))
DualN(P, u) == NormH(MatTVec(P.A, u))

(* --- control ------------------------------------------------------------ *)
ResidualsOn(o) == o.en \/ ~o.fast
StatsOn(o)     == ~o.fast
(* cr, cs: sign of (residual - tolerance) *)
StopNow(o, cr, cs, cb) == cb \/ (ResidualsOn(o) /\ cr < 0 /\ cs < 0)

(* penalty adaptation is due at iteration k *)
RhoDue(o, k) == o.en /\ k # 0 /\ (k + 1) % o.period = 0
(* c1: sign of r - xi mu s;  c2: sign of s - (mu / xi) r *)
RhoDir(c1, c2) == IF c1 > 0 THEN 1 ELSE IF c2 > 0 THEN -1 ELSE 0

(***************************************************************************)
(* Design model: the loop of the solver as seen through its public          *)
(* interface, with nondeterministic residual outcomes.  Several calls of    *)
(* solve, iteration limits 0..2, callbacks, adaptation with period 1..3.    *)
(***************************************************************************)
CONSTANTS MaxIters, MaxSolves
VARIABLES k, stats, left, phase, nsolve, o, rexp, uexp, total, log
vars == <<k, stats, left, phase, nsolve, o, rexp, uexp, total, log>>

Opts == {[fast |-> f, en |-> e, period |-> p] :
            f \in BOOLEAN, e \in BOOLEAN, p \in 1..3}

Init == /\ o \in Opts /\ k = 0 /\ stats = <<>> /\ left = 0
        /\ phase = "idle" /\ nsolve = 0
        /\ rexp = 0      \* log_tau(rho / rho0)
        /\ uexp = 0      \* log_tau(unscaled dual / scaled dual)
        /\ total = 0 /\ log = <<>>

Begin == /\ phase = "idle" /\ nsolve < MaxSolves
         /\ nsolve' = nsolve + 1
         /\ \E m \in 0..MaxIters :
              /\ left' = m
              /\ phase' = IF m = 0 THEN "idle" ELSE "run"
         /\ UNCHANGED <<k, stats, o, rexp, uexp, total, log>>

Iterate ==
    /\ phase = "run"
    /\ \E cr \in {-1, 0, 1}, cs \in {-1, 1}, cb \in BOOLEAN, d \in {<<1, 0>>, <<0, 1>>, <<0, 0>>} :
         LET dir == IF RhoDue(o, k) THEN RhoDir(d[1], d[2]) ELSE 0 IN
         /\ stats' = IF StatsOn(o) THEN Append(stats, k) ELSE stats
         /\ rexp' = rexp + dir /\ uexp' = uexp + dir
         /\ total' = total + 1
         /\ log' = Append(log, dir)
         /\ left' = left - 1
         /\ k' = k + 1
         /\ phase' = IF left = 1 \/ StopNow(o, cr, cs, cb) THEN "idle" ELSE "run"
    /\ UNCHANGED <<nsolve, o>>

Next == Begin \/ Iterate
Spec == Init /\ [][Next]_vars

IterationNumbers == \A i \in 1..Len(stats) : stats[i] = i - 1
CountIsTotal == k = total
StatsComplete == Len(stats) = (IF o.fast THEN 0 ELSE total)
(* rho * u is invariant under adaptation *)
DualConsistent == rexp = uexp
AdaptOnlyWhenEnabled == ~o.en => rexp = 0
AdaptOnlyAtPeriod == \A i \in 1..Len(log) :
                       log[i] # 0 => (i % o.period = 0 /\ i > 1)
=============================================================================
