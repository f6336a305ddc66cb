------------------------------- MODULE GridGen -------------------------------
(* Random grid searches.                                                      *)
EXTENDS Grid, TLC, Json
VARIABLES c, done
R(S) == RandomElement(S)
Vec(n, S) == [i \in 1..n |-> R(S)]
(* the permutation that ranks random keys *)
Rank(key) == [i \in DOMAIN key |-> Cardinality({j \in DOMAIN key :
                 key[j] < key[i] \/ (key[j] = key[i] /\ j <= i)})]
Val(nanp) == IF R(1..8) <= nanp THEN NAN ELSE R(-6..6)
Pick ==
  \E nd \in {R({1, 2, 2, 3})}, nf \in {R({1, 1, 2, 3})}, nanp \in {R({0, 0, 2, 6})},
     off \in {Vec(3, -9..9)} :
  \E ls \in {[k \in 1..nd |-> R(IF nd = 3 THEN 1..3 ELSE IF nd = 2 THEN 1..5 ELSE 1..9)]} :
  \E ky \in {[k \in 1..nd |-> Vec(ls[k], 1..99)]} :
  \E ax \in {[k \in 1..nd |-> [i \in 1..ls[k] |-> off[k] + 7 * Rank(ky[k])[i]]]},
     t0 \in {[p \in 1..Prod(ls) |-> [f \in 1..nf |-> Val(nanp)]]}, z \in {R(1..Prod(ls))} :
  c' = [axes |-> ax, scalar |-> (nf = 1 /\ R(1..4) > 1),
        \* every function has a value at one point at least
        tab |-> [t0 EXCEPT ![z] = [f \in 1..nf |-> IF t0[z][f] = NAN THEN R(-6..6) ELSE t0[z][f]]],
        fmin |-> R(BOOLEAN), be |-> R({"util", "mpi", "mpi"}), nproc |-> R({1, 2, 3, 4, 7}),
        size |-> R({1, 2, 3, 3, 5}), rt |-> R({"float", "float", "int", "np", "f4"}),
        seq |-> R({"tuple", "list", "array"}), delay |-> Vec(Prod(ls), 0..2),
        slow |-> R(1..3) = 1, defmin |-> R(BOOLEAN),
        ad |-> R({"f8", "f8", "f4", "list"})]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN Pick ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
