-------------------------------- MODULE ParGen --------------------------------
(* Random instances of the parallel solvers together with a schedule: the    *)
(* order in which the tasks of each parallel section are run.                 *)
EXTENDS SolversGen
VARIABLE p
PickP == p' = [ng |-> R({1, 2, 2, 3, 3, 4}), np |-> R({1, 2, 3}), pa |-> R({1, 1, 2}), par |-> Pct(20), noW |-> Pct(30),
               xal |-> R({4, 4, 5, 7}), xm |-> R(0..5), dm |-> R(0..5), acc |-> R(BOOLEAN), mul |-> Pct(20),
               prm |-> [i \in 1..8 |-> R(Permutations(1..4))], niter |-> R(2..4)]
NextP == /\ Next
         /\ IF done = 0 THEN PickP ELSE p' = p
EmitP == done = 2 => PrintT("SCN " \o ToJson([c |-> c, p |-> p]))
SpecP == Init /\ p = <<>> /\ [][NextP]_<<c, done, p>>
=============================================================================
