------------------------------ MODULE ProxGen --------------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, done
R(S) == RandomElement(S)
Pct(p) == RandomElement(1..100) <= p
Ops == {"norm_l0", "norm_l1", "norm_2l2", "norm_l2", "norm_l21", "norm_dl1l2", "norm_nuclear",
        "prox_l0", "prox_l1", "prox_l1", "prox_l2", "prox_l2", "prox_sl1l2", "prox_dl1l2", "prox_dl1l2",
        "prox_nuclear", "proj_l1", "proj_l1", "proj_l2", "proj_l2ball", "nd2d"}
Pick ==
  \E op \in {R(Ops)}, nd \in {R({1, 2, 2, 3})}, z \in {R({3, 3, 1})} :
  c' = [op |-> op, nd |-> nd,
        sh |-> [d \in 1..nd |-> R(IF nd = 1 THEN 1..8 ELSE IF nd = 2 THEN 1..4 ELSE 1..3)],
        re |-> [i \in 1..36 |-> IF Pct(15) THEN 0 ELSE R(-8..8)],
        im |-> [i \in 1..36 |-> R(-z..z)], cplx |-> Pct(20),
        zero |-> R({0, 0, 0, 1, 2}),
        alpha |-> R({0, 1, 2, 2, 4, 8, 9, 16}),       \* quarter units
        beta |-> R({0, 1, 2, 4}),
        aarr |-> [i \in 1..36 |-> R(0..9)], usearr |-> Pct(40),
        eps |-> R({0, 0, 2, 4}),
        ax |-> R({<<>>, <<>>, <<0>>, <<-1>>, <<0, 1>>, <<-1, 0>>, <<1>>, <<2>>, <<0, 2>>, <<-2>>, <<1, 2>>, <<2, 0>>}),
        tup |-> R(BOOLEAN), meth |-> R({"none", "none", "scalarroot", "sortcumsum"}),
        mr |-> R({1, 2, 2}), mc |-> R(1..3), tr |-> R(BOOLEAN),
        dt |-> R({"f8", "f8", "f4"}), lay |-> R({"C", "F", "R"})]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN Pick ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
