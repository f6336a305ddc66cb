-------------------------------- MODULE DlGen --------------------------------
(* Random dictionary learning problems: solver pair, number of outer and      *)
(* inner iterations, division into calls.                                     *)
EXTENDS SolversGen
CONSTANT Kinds
VARIABLE p
PickP == p' = [kind |-> R(Kinds), xm |-> R({"admm", "admm", "pgm"}), dm |-> R({"ism", "cg", "cns", "pgm", "pgm"}),
               acc |-> Pct(40), no |-> R(1..2), no2 |-> R(0..2), xi |-> R({1, 1, 1, 2}), di |-> R({1, 1, 1, 2}), cb |-> Pct(15),
               S |-> [i \in 1..48 |-> R(-3..3)], D0 |-> [i \in 1..36 |-> R(-3..3)], np |-> R(0..2), par |-> Pct(25), prm |-> [i \in 1..6 |-> R(Permutations(1..3))],
               dsz |-> R(BOOLEAN),
               xal |-> R({4, 5, 7}), dal |-> R({4, 5, 7}), drho |-> R({128, 256, 512}), dL |-> R({16, 24, 32, 64}), lm |-> R({0, 1, 2, 4, 8})]
NextP == /\ Next
         /\ IF done = 0 THEN PickP ELSE p' = p
EmitP == done = 2 => PrintT("SCN " \o ToJson([c |-> c, p |-> p]))
SpecP == Init /\ p = <<>> /\ [][NextP]_<<c, done, p>>
=============================================================================
