-------------------------------- MODULE LinGen --------------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, done
R(S) == RandomElement(S)
Pct(p) == RandomElement(1..100) <= p
Ops == {"dbi", "dbd", "ism", "rsm", "cg", "lu", "cho", "sylv", "inner", "dot", "bcirc", "rrs",
        "adj", "pca", "nkp", "kpsvd"}
Pick ==
  \E op \in {IF Pct(35) THEN R({"dbi", "dbd", "ism", "lu", "cho", "sylv"}) ELSE R(Ops)}, dN \in {R({1, 1, 2})}, big \in {R({1, 3})} :
  c' = [op |-> op, dimN |-> dN,
        N |-> [d \in 1..2 |-> R(1..3)], C |-> R({1, 1, 2}), K |-> R(1..4), M |-> R(1..4),
        ahc |-> R(BOOLEAN), ahk |-> R(BOOLEAN), cplx |-> Pct(75),
        a |-> [i \in 1..72 |-> IF Pct(10) THEN 0 ELSE R(-big..big)],
        ai |-> [i \in 1..72 |-> R(-2..2)],
        b |-> [i \in 1..72 |-> R(-4..4)], bi |-> [i \in 1..72 |-> R(-4..4)],
        d |-> [i \in 1..72 |-> R(1..9)], dk |-> R({"full", "scalar", "m", "n"}),
        rho |-> R({1, 2, 4, 5, 10, 40}), cache |-> R(BOOLEAN), neg |-> R(BOOLEAN), mlast |-> Pct(70),
        r |-> R(1..4), q |-> R(1..4), vec |-> R(BOOLEAN), lower |-> R(BOOLEAN),
        nb |-> R(1..3), ak |-> R({"d1", "d2", "sym", "tup"}), bk |-> R({"d1", "d2", "sym", "tup"}),
        isn |-> R(BOOLEAN), dt |-> R({"f8", "f8", "f8", "f4"}), lay |-> R({"C", "C", "F"}),
        bs |-> [i \in 1..2 |-> R(2..3)], cs |-> [i \in 1..2 |-> R(1..2)], lowr |-> Pct(40),
        pert |-> R(BOOLEAN), axis |-> R(-3..2)]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN Pick ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
