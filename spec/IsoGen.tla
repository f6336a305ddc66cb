------------------------------- MODULE IsoGen --------------------------------
(* Random interleavings of operations on four solver objects, objects 1, 3    *)
(* of one configuration with the same own sequence of operations, objects     *)
(* 2, 4 of another one likewise.                                              *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, done
CONSTANT NNames
R(S) == RandomElement(S)
Own(n) == <<"solve">> \o [i \in 1..(n - 1) |-> R({"solve", "solve", "dict1", "dict2"})]
Extra(r) == IF r <= 5 THEN <<"query", "store", "copy", "other", "store">>[r] ELSE "none"
Pick ==
  \E na \in {R(2..3)}, nb \in {R(2..3)}, ca \in {R(1..NNames)}, va \in {R(0..3)},
     vb \in {R(0..3)}, same \in {R({TRUE, FALSE})}, cb \in {R(1..NNames)} :
  c' = [a |-> [n |-> ca, v |-> va], b |-> [n |-> IF same THEN ca ELSE cb, v |-> vb],
        own |-> <<Own(na), Own(nb)>>,
        order |-> [i \in 1..40 |-> R(1..4)],
        extra |-> [i \in 1..40 |-> Extra(R(1..9))],
        shareopt |-> R(BOOLEAN), sharedata |-> R({TRUE, TRUE, FALSE})]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN Pick ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
