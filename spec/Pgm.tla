-------------------------------- MODULE Pgm --------------------------------
(***************************************************************************)
(* Accelerated proximal gradient iteration for  minimise f(x) + g(x)  as a  *)
(* state machine: gradient step from the auxiliary iterate y with step 1/L, *)
(* proximal step, momentum, optional monotone safeguard, two backtracking   *)
(* line searches, step size policies, stopping.                             *)
(* Real quantities are integers in units of 1/1024.                         *)
(***************************************************************************)
EXTENDS Num
U == 1024
Mul(a, b) == (a \div U) * b + ((a % U) * b + U \div 2) \div U   \* a * b / U
MulV(a, v) == [i \in 1..Len(v) |-> Mul(a, v[i])]
InnerQ(a, b) == Sum([i \in 1..Len(a) |-> Mul(a[i], b[i])])

(* gradient of f(x) = sum h_i x_i^2 / 2 - b_i x_i *)
Grad(h, b, x) == [i \in 1..Len(x) |-> h[i] * x[i] - b[i]]

(* momentum *)
NextT(m, t, k) ==
    CASE m.ty = "nest" -> (U + ISqrt(U * U + 4 * t * t)) \div 2
      [] m.ty = "lin"  -> (U * (k + m.b)) \div m.b
      [] OTHER         -> (U * (k + m.a)) \div m.b

(* t' (y' - x) *)
MomentumRHS(mono, t, z, x, xp) ==
    [i \in 1..Len(x) |->
       (IF mono THEN Mul(t, z[i] - x[i]) ELSE 0) + Mul(t - U, x[i] - xp[i])]

(* robust backtracking: t solves L t^2 = t + Tk *)
RobustT(L, Tk) ==
    ((U + ISqrt(U * U + 4 * Mul(L, Tk) * U)) * U) \div (2 * L)

(* quadratic upper model of f at x around y *)
QModel(fy, g, L, x, y) ==
    fy + InnerQ(VSub(x, y), g) + Mul(L, InnerQ(VSub(x, y), VSub(x, y))) \div 2

(* control *)
StatsOn(o) == ~o.fast
(* cr: sign of (residual - tolerance) *)
StopNow(o, cr, cb) == cb \/ (StatsOn(o) /\ cr < 0)
(* c: sign of (previous objective - new objective); 2 means a tie up to rounding *)
Reverts(o, k, c) == o.mono /\ k > 0 /\ c = -1

(***************************************************************************)
(* Design model: loop, line search and monotone safeguard with abstract     *)
(* outcomes.  L is log_gamma of the step parameter, obj an abstract         *)
(* objective value.                                                         *)
(***************************************************************************)
CONSTANTS MaxIters, MaxSolves, MaxBt
VARIABLES k, stats, left, phase, nsolve, o, L, tries, obj, x, total
vars == <<k, stats, left, phase, nsolve, o, L, tries, obj, x, total>>
Opts == {[fast |-> f, mono |-> m, bt |-> b] : f \in BOOLEAN, m \in BOOLEAN,
                                              b \in BOOLEAN}
Objs == 0..2
Init == /\ o \in Opts /\ k = 0 /\ stats = <<>> /\ left = 0 /\ phase = "idle"
        /\ nsolve = 0 /\ L = 0 /\ tries = 0 /\ obj = 2 /\ x = 0 /\ total = 0
Begin == /\ phase = "idle" /\ nsolve < MaxSolves /\ nsolve' = nsolve + 1
         /\ \E m \in 0..MaxIters : left' = m /\ phase' = IF m = 0 THEN "idle" ELSE "run"
         /\ UNCHANGED <<k, stats, o, L, tries, obj, x, total>>
(* a rejected line search attempt *)
Reject == /\ phase = "run" /\ o.bt /\ tries < MaxBt - 1
          /\ tries' = tries + 1 /\ L' = L + 1
          /\ UNCHANGED <<k, stats, left, phase, nsolve, o, obj, x, total>>
Accept == /\ phase = "run"
          /\ \E nobj \in Objs, cr \in {-1, 0, 1}, cb \in BOOLEAN, lst \in BOOLEAN :
             LET rev == Reverts(o, k, IF obj < nobj THEN -1 ELSE 1) IN
             /\ (lst => o.bt /\ tries = MaxBt - 1)
             /\ L' = L + (IF lst THEN 1 ELSE 0)
             /\ obj' = IF rev THEN obj ELSE nobj
             /\ x' = IF rev THEN x ELSE total + 1
             /\ tries' = 0 /\ total' = total + 1 /\ k' = k + 1
             /\ stats' = IF StatsOn(o) THEN Append(stats, <<k, obj'>>) ELSE stats
             /\ left' = left - 1
             /\ phase' = IF left = 1 \/ StopNow(o, cr, cb) THEN "idle" ELSE "run"
          /\ UNCHANGED <<nsolve, o>>
Next == Begin \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars
IterationNumbers == \A i \in 1..Len(stats) : stats[i][1] = i - 1
CountIsTotal == k = total
StatsComplete == Len(stats) = (IF o.fast THEN 0 ELSE total)
MonotoneObjective ==
    o.mono => \A i \in 2..Len(stats) : stats[i][2] <= stats[i - 1][2]
StepOnlyGrows == o.bt \/ L = 0
TriesBounded == tries < MaxBt
=============================================================================
