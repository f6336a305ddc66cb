-------------------------------- MODULE OnlGen --------------------------------
(* Random histories of calls of online dictionary learning: signals of        *)
(* different sizes and numbers, dimK given at construction, in the call or    *)
(* not at all.                                                                *)
EXTENDS SolversGen
CONSTANT Kinds
VARIABLE p
PickP == p' = [kind |-> R(Kinds), fast |-> Pct(25), D0 |-> [i \in 1..36 |-> R(-3..3)], d1 |-> Pct(25), dkc |-> Pct(40), dsz |-> R(BOOLEAN),
               xi |-> R({1, 1, 2}), ea |-> R({1, 2, 4, 8, 16}), eb |-> R({4, 8, 20, 64}), lm |-> R({0, 1, 2, 4, 8}),
               calls |-> [k \in 1..R(1..3) |->
                  [S |-> [i \in 1..48 |-> R(-3..3)], N |-> [d \in 1..2 |-> IF Pct(70) THEN 0 ELSE R(0..1)],
                   K |-> R({1, 1, 2, 3}), kx |-> Pct(40), wm |-> R(BOOLEAN), W |-> [i \in 1..48 |-> IF Pct(30) THEN 0 ELSE R(1..6)]]],
               fixK |-> Pct(50)]
NextP == /\ Next
         /\ IF done = 0 THEN PickP ELSE p' = p
EmitP == done = 2 => PrintT("SCN " \o ToJson([c |-> c, p |-> p]))
SpecP == Init /\ p = <<>> /\ [][NextP]_<<c, done, p>>
=============================================================================
