----------------------------- MODULE SolversPgMC -----------------------------
(* Proximal gradient steps of Solvers on small diagonal problems: steps of    *)
(* the closed form are accepted by the predicate used on traces, displaced    *)
(* steps are rejected, the objective does not increase when L is at least the *)
(* largest curvature, and the last iterate is optimal among lattice points.   *)
EXTENDS SolversDef
CONSTANTS KMax
VARIABLES c, x, y, k, w, mono
vars == <<c, x, y, k, w, mono>>
P == BuildP(c)
Cfg(cls, d, sv, lm, wl, nn, W) ==
    [cls |-> cls, D |-> [sh |-> <<2, 2>>, v |-> <<d[1], 0, 0, d[2]>>], S |-> [sh |-> <<2, 1>>, v |-> sv],
     lm |-> lm, mu |-> 0, rad |-> 4096, nn |-> nn, wl1 |-> [sh |-> <<2, 1>>, v |-> wl],
     W |-> [sh |-> <<2, 1>>, v |-> W]]
Wt(i) == IF c.cls = "pgmWeightedBPDN" THEN c.W.v[i] ELSE 4
LL == 256 * 6
Dg(i) == c.D.v[3 * i - 2]
(* x = prox(y - (1/L) w d (d y - s)) *)
XCl == [i \in 1..2 |->
    LET v == y[i] - RDiv(RDiv(Wt(i) * Dg(i) * (Dg(i) * y[i] - UU * c.S.v[i]), 4) * 256, LL)
        z == Soft(v, Thr(c.lm, c.wl1.v[i], LL)) IN IF c.nn THEN NMax(0, z) ELSE z]
Init == /\ \E cls \in {"pgmBPDN", "pgmWeightedBPDN"}, d \in {<<1, 1>>, <<2, 1>>, <<1, -2>>}, sv \in {<<3, -1>>, <<1, 2>>},
              lm \in {0, 8, 24}, wl \in {<<4, 8>>}, nn \in BOOLEAN, W \in {<<2, 6>>, <<4, 0>>} :
              (cls = "pgmBPDN" => W = <<4, 0>>) /\ c = Cfg(cls, d, sv, lm, wl, nn, W)
        /\ x \in {<<0, 0>>, <<UU, -UU>>} /\ y = x /\ k = 0 /\ w = TRUE /\ mono = TRUE
Obj(z) == Sum([j \in 1..Len(P.obj) |-> RDiv(P.obj[j][2] *
              (LET e == CHOOSE e \in {P.st[i] : i \in 1..Len(P.st)} : e.n = P.obj[j][1] IN
               IF e.k = "q" THEN QV(e.f, z) ELSE PieceVal(e.p, z)), 16)])
Next == /\ k < KMax /\ k' = k + 1 /\ c' = c
        /\ LET z == XCl IN
           /\ x' = z /\ y' = z
           /\ w' = /\ PgStepOK(P, z, y, LL)
                   /\ \A i \in 1..2, e \in {-150, 150} : ~PgStepOK(P, [z EXCEPT ![i] = @ + e], y, LL)
           /\ mono' = (c.nn \/ Obj(z) <= Obj(x) + 4)
Spec == Init /\ [][Next]_vars
Accepted == w
Monotone == mono
Lattice == LET h == {-3 * UU, -2 * UU, -UU, -(UU \div 2), 0, UU \div 2, UU, 2 * UU, 3 * UU} IN
           (h \X h) \cup {<<y[1] + d, y[2] + e>> : d \in {-1024, 0, 1024}, e \in {-1024, 0, 1024}}
Optimal == k = KMax => LET o == Obj(x) IN
           \A z \in Lattice : (c.nn => z[1] >= 0 /\ z[2] >= 0) => o <= Obj(z) + 12
=============================================================================
