------------------------------- MODULE PgmGen -------------------------------
(* Random proximal gradient configurations.                                 *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, done
R(S) == RandomElement(S)
Pct(p) == RandomElement(1..100) <= p
Vec(n, S) == [i \in 1..n |-> R(S)]
Pick ==
  \E ty \in {R({"gen", "gen", "gen", "dft"})},
     bt \in {R({"none", "none", "std", "rob"})},
     ssp \in {R({"none", "none", "cauchy", "bb"})} :
  c' = [ty |-> ty, bt |-> bt, ssp |-> ssp,
        h |-> Vec(4, {1, 2, 3, 8}), b |-> Vec(4, -6..6),
        x0 |-> Vec(4, -4..4), setx0 |-> R(BOOLEAN),
        L |-> R({<<1, 2>>, <<1, 1>>, <<2, 1>>, <<4, 1>>, <<8, 1>>}),
        gu |-> R({<<2, 1>>, <<3, 2>>, <<5, 4>>}), gd |-> R({<<1, 2>>, <<3, 4>>}),
        maxbt |-> R({1, 2, 3, 6}),
        mom |-> [ty |-> R({"nest", "nest", "lin", "gen"}), a |-> R({3, 5}), b |-> R({2, 3})],
        mono |-> Pct(40), fast |-> Pct(20),
        px |-> IF ssp = "bb" THEN "s" ELSE R({"q", "q", "s"}),
        auto |-> Pct(30), tau0 |-> R({<<1, 1>>, <<4, 1>>}),
        tol |-> R({<<0, 1>>, <<0, 1>>, <<0, 1>>, <<1, 4>>, <<1, 1>>}),
        cb |-> R({0, 0, 0, 1, 2, 3, 5}),
        tmr |-> R({"solve", "solve_wo_func", "solve_wo_rsdl", "solve_wo_btrack"}),
        solves |-> R({<<1>>, <<4>>, <<6>>, <<2, 3>>, <<1, 1, 1, 3>>, <<3, 0, 2>>,
                      <<0, 2>>, <<2, 2, 4>>, <<8>>})]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN Pick ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
