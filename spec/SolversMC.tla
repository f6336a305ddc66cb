------------------------------- MODULE SolversMC -------------------------------
(* The steps of Solvers applied to small diagonal problems of SolversDef:    *)
(* every step constructed from the closed forms is accepted by the           *)
(* predicates used on traces, displaced steps are rejected, and the    *)
(* last iterate minimises the documented objective among lattice points.     *)
EXTENDS SolversDef
CONSTANTS KMax, ClassSet
VARIABLES c, s, x, y, u, k, w
vars == <<c, s, x, y, u, k, w>>
Cfg(cls, d, sv, lm, mu, wl, nn) ==
    [cls |-> cls, D |-> [sh |-> <<2, 2>>, v |-> <<d[1], 0, 0, d[2]>>], S |-> [sh |-> <<2, 1>>, v |-> sv],
     lm |-> lm, mu |-> mu, rad |-> 4096, nn |-> nn, wl1 |-> [sh |-> <<2, 1>>, v |-> wl], al |-> 4]
P == BuildP(c)
Rho == 256
Z2 == <<0, 0>>
Dg(i) == c.D.v[3 * i - 2]
(* (d^2 + [mu] + rho) x = d s + rho (y - u) *)
XCl == LET q == IF c.cls = "ElasticNet" THEN c.mu ELSE 0 IN
    [i \in 1..2 |-> RDiv(16 * (Dg(i) * UU * c.S.v[i] + (y[i] - u[i])), 16 * Dg(i) * Dg(i) + q + 16)]
PosP(v) == IF c.nn THEN [i \in 1..2 |-> NMax(0, v[i])] ELSE v
YCl(v) ==
    LET p == P.g[1]  t == v IN
    PosP(CASE p.k = "l1" -> [i \in 1..2 |-> Soft(v[i], Thr(p.lam, p.w[i], Rho))]
           [] p.k = "sl" -> [i \in 1..2 |-> SlVal(<<v[i]>>, p.w[i], p.wx[i], p, Rho)[1]]
           [] p.k = "pl1" -> ProjL1(v, p.rad))
ClVal == LET cs == {<<d, sv, lm, mu, wl, nn>> : d \in {<<1, 1>>, <<2, 1>>, <<1, -1>>}, sv \in {<<3, -1>>, <<1, 2>>, <<0, -3>>},
                    lm \in {0, 16, 24}, mu \in {4}, wl \in {<<4, 8>>}, nn \in BOOLEAN} IN cs
(* projection on the l1 ball followed by NonNegCoef is not an exact step *)
Skip(cls, nn) == cls = "BPDNProjL1" /\ nn
Init == /\ \E cls \in ClassSet, a \in ClVal : ~Skip(cls, a[6]) /\ c = Cfg(cls, a[1], a[2], a[3], a[4], a[5], a[6])
        /\ s = 0 /\ k = 0 /\ w = FALSE /\ x = Z2
        /\ y \in {Z2, <<UU, -UU>>} /\ u \in {Z2, <<-UU, UU \div 2>>}
(* s: 0 x step, 1 y and u step *)
Next == /\ k < KMax
        /\ \/ s = 0 /\ x' = XCl /\ s' = 1 /\ UNCHANGED <<c, y, u, k, w>>
           \/ /\ s = 1 /\ s' = 0 /\ k' = k + 1
              /\ LET v == [i \in 1..2 |-> x[i] + u[i]]  yn == YCl(v) IN
                 /\ y' = yn /\ u' = [i \in 1..2 |-> u[i] + x[i] - yn[i]]
                 /\ w' = (YStepOK(P, yn, v, Rho) /\ UStepOK(P, u', u, x, yn)
                          /\ ~YStepOK(P, [yn EXCEPT ![1] = @ + 400], v, Rho)
                          /\ ~UStepOK(P, [u' EXCEPT ![2] = @ - 200], u, x, yn))
              /\ UNCHANGED <<c, x>>
Spec == Init /\ [][Next]_vars
XAccepted == s = 1 => XStepOK(P, x, y, u, Rho)
XDisplaced == s = 1 => \A i \in 1..2, d \in {-200, 200} : ~XStepOK(P, [x EXCEPT ![i] = @ + d], y, u, Rho)
YUAccepted == (s = 0 /\ k > 0) => w
(* objective (1/1024) at z *)
ValOf(n, z) == LET e == CHOOSE e \in {P.st[j] : j \in 1..Len(P.st)} : e.n = n IN
               IF e.k = "q" THEN QV(e.f, z) ELSE PieceVal(e.p, z)
Obj(z) == IF P.g[1].k = "pl1" THEN QV(P.f[1], z)
          ELSE Sum([j \in 1..Len(P.obj) |-> RDiv(P.obj[j][2] * ValOf(P.obj[j][1], z), 16)])
Feasible(z) == /\ c.nn => \A i \in 1..2 : z[i] >= 0
               /\ P.g[1].k = "pl1" => NAbs(z[1]) + NAbs(z[2]) <= P.g[1].rad
Lattice == LET h == {-3 * UU, -2 * UU, -UU, -(UU \div 2), 0, UU \div 2, UU, 2 * UU, 3 * UU} IN
           (h \X h) \cup {<<y[1] + d, y[2] + e>> : d \in {-1024, 0, 1024}, e \in {-1024, 0, 1024}}
Optimal == (k = KMax /\ s = 0) => LET o == Obj(y) IN
           \A z \in Lattice : Feasible(z) => o <= Obj(z) + 12
Feasible1 == (k > 0 /\ s = 0) => LET z == y IN (c.nn => z[1] >= 0 /\ z[2] >= 0)
(* near the end the iterates agree *)
Consensus == (k = KMax /\ s = 0) => VNear(x, y, 24)
=============================================================================
