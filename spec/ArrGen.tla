------------------------------ MODULE ArrGen --------------------------------
(* Random calls of the array utilities.                                      *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, done
R(S) == RandomElement(S)
Vec(n, S) == [i \in 1..n |-> R(S)]
Ops == {"zpad", "zdivide", "atleast", "split", "roll", "sub", "ext", "ext", "avg", "comb",
        "round", "tpl", "promote"}
Pick ==
  \E op \in {R(Ops)}, nd \in {R({1, 2, 2, 3})} :
  \E sh \in {[d \in 1..nd |-> R(IF nd = 3 THEN 1..4 ELSE 2..6)]},
     nb \in {IF nd > 1 /\ R(1..3) = 1 THEN nd - 1 ELSE nd} :
  c' = [op |-> op, sh |-> sh, v |-> Vec(216, -9..9), w |-> Vec(216, -2..2),
        nb |-> nb,
        \* raw draws reduced modulo the legal range
        blk |-> [d \in 1..nb |-> R(1..sh[d])],
        stp |-> Vec(nb, 1..3), usestp |-> R(BOOLEAN),
        pd |-> Vec(2, 0..3), ax |-> R(0..(nd - 1)), neg |-> R(BOOLEAN),
        n |-> R(1..5), wnm |-> [d \in 1..nd |-> R(1..4)], usewnm |-> R(BOOLEAN),
        wsz |-> [d \in 1..nd |-> R(1..sh[d])],
        mode |-> R({"wrap", "edge", "reflect"}), pad |-> R(BOOLEAN),
        lay |-> R({"C", "F", "T", "S", "R"}), dt |-> R({"f8", "f4", "i8"}),
        tuple |-> R(BOOLEAN), fn |-> R({"median", "mean", "max", "len"})]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN Pick ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
