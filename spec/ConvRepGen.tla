------------------------------ MODULE ConvRepGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Mode
VARIABLES c, done
R(S) == RandomElement(S)
Pct(p) == RandomElement(1..100) <= p
LayoutPick ==
  c' = [op |-> R({"csc", "csc", "cdu", "l1w", "l1w", "msk", "msk", "cls", "cls"}),
        dimN |-> R({1, 2, 2}), N |-> [d \in 1..2 |-> R(2..5)], n |-> [d \in 1..2 |-> R(1..2)],
        nS |-> R({0, 1, 1, 1, 2}), C |-> R({1, 2, 3}), K |-> R({1, 2, 3, 4}), M |-> R(1..4),
        dCd |-> R(0..1), Cdm |-> R({0, 0, 0, 1, 2}), dk |-> R({-1, -1, 0, 1}),
        wk |-> R({"full", "full", "nofilt", "scalar", "intern", "spat"}),
        one |-> [d \in 1..6 |-> Pct(25)], kind |-> R({"single", "multi", "chan"}),
        v |-> [i \in 1..40 |-> R(-9..9)], cls |-> R({"ConvBPDN", "ConvBPDNMaskDcpl", "pgm", "AddMaskSim"})]
PcnPick ==
  \E dimN \in {R({1, 2, 2})} : \E nb \in {R(1..2)}, ncb \in {R(1..2)} :
  c' = [op |-> R({"pcn", "pcn", "getpcn", "getpcn", "bcrop", "zeromean", "normalise", "zpad", "size"}),
        dimN |-> dimN, kind |-> R({"single", "multi", "chan"}),
        bl |-> [i \in 1..nb |->
                  [M |-> R(1..2), cb |-> [j \in 1..ncb |->
                      [C |-> R(1..2), sup |-> [d \in 1..dimN |-> R(1..3)]]]]],
        N |-> [d \in 1..dimN |-> R(3..4)], K |-> R({1, 1, 2}),
        nochn |-> Pct(40),
        dimC |-> R({1, 1, 1, 0}), crp |-> R(BOOLEAN), zm |-> R(BOOLEAN),
        cplx |-> Pct(15), zero |-> R({0, 0, 0, 1, 2}), sc |-> [i \in 1..4 |-> IF Pct(60) THEN 0 ELSE R({-30, -12, 20})],
        v |-> [i \in 1..128 |-> R(-4..4)], im |-> [i \in 1..128 |-> R(-3..3)], dt |-> R({"f8", "f8", "f4"})]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN (IF Mode = "layout" THEN LayoutPick ELSE PcnPick) ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
