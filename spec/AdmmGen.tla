------------------------------ MODULE AdmmGen ------------------------------
(* Random ADMM configurations and scripts for the x / y updates.            *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, done
R(S) == RandomElement(S)
Pct(p) == RandomElement(1..100) <= p
Vec(n, S) == [i \in 1..n |-> R(S)]
Mat(m, n) == [i \in 1..m |-> [j \in 1..n |-> R(-2..2)]]
Script(len, n, zero) ==
    [t \in 1..len |-> IF t > zero THEN [i \in 1..n |-> 0] ELSE Vec(n, -3..3)]
Pick ==
  \* bound by \E, not LET: a LET would draw a new value at every use
  \E ty \in {R({"gen", "eq", "eq", "two", "cons", "wcons"})},
     nbc \in {R({2, 3})}, z \in {IF Pct(40) THEN R(1..5) ELSE 99} :
  LET nb == IF ty \in {"cons", "wcons"} THEN nbc ELSE 1
      len == 14 IN
  c' = [ty |-> ty, nb |-> nb, zero |-> z,
        A |-> Mat(3, 2), B |-> Mat(3, 2), c |-> Vec(3, -2..2),
        al |-> R({<<1, 1>>, <<1, 1>>, <<3, 2>>, <<1, 2>>, <<7, 4>>}),
        std |-> R(BOOLEAN), fast |-> Pct(25),
        en |-> Pct(65), period |-> R({1, 1, 2, 3, 10}),
        tau |-> R({<<2, 1>>, <<2, 1>>, <<4, 1>>, <<3, 2>>}),
        mu |-> R({<<1, 1>>, <<2, 1>>, <<2, 1>>, <<10, 1>>}),
        xi |-> R({<<1, 1>>, <<1, 1>>, <<2, 1>>, <<1, 2>>}),
        autos |-> Pct(35), rho |-> R({<<1, 2>>, <<1, 1>>, <<2, 1>>, <<4, 1>>}),
        abs |-> R({<<0, 1>>, <<0, 1>>, <<1, 4>>, <<1, 1>>, <<4, 1>>}),
        rel |-> R({<<0, 1>>, <<0, 1>>, <<1, 8>>, <<1, 2>>, <<2, 1>>}),
        cb |-> R({0, 0, 0, 1, 2, 3, 5}),
        evx |-> R(BOOLEAN), evy |-> R(BOOLEAN), aux |-> R(BOOLEAN),
        ret |-> R({"X", "Y0", "Y1"}), retx |-> R(BOOLEAN),
        tmr |-> R({"solve", "solve_wo_func", "solve_wo_rsdl"}),
        init |-> R({"none", "none", "y0", "u0", "both"}),
        y0 |-> Vec(4, -2..2), u0 |-> Vec(9, -2..2),
        solves |-> R({<<1>>, <<4>>, <<6>>, <<2, 3>>, <<1, 1, 1, 3>>, <<3, 0, 2>>,
                      <<0, 2>>, <<2, 2, 4>>, <<8>>, <<12>>}),
        xs |-> Script(len, 6, z), ys |-> Script(len, 3, z - 1)]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN Pick ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
