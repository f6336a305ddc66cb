-------------------------------- MODULE MetGen --------------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, done
R(S) == RandomElement(S)
Pct(p) == RandomElement(1..100) <= p
Ops == {"mae", "mse", "snr", "psnr", "isnr", "bsnr", "pamse", "gmsd", "lad", "lmd",
        "points", "kernel", "filters", "demosaic", "gray", "gauss", "lcn", "noise", "mask", "tile"}
Pick ==
  \E op \in {R(Ops)}, big \in {R({3, 20, 127, 255})}, nd \in {R(1..3)} :
  c' = [op |-> op, nd |-> nd, sh |-> [d \in 1..3 |-> R(1..4)], sh2 |-> [d \in 1..2 |-> R(3..7)],
        dt |-> R({"u1", "i1", "i2", "u2", "i4", "f4", "f8", "c8", "c16"}),
        dt2 |-> IF Pct(70) THEN "same" ELSE R({"u1", "i2", "f4", "f8"}),
        x |-> [i \in 1..49 |-> R(0..big)], y |-> [i \in 1..49 |-> R(0..big)],
        z |-> [i \in 1..49 |-> R(-4..4)], sgn |-> [i \in 1..49 |-> R({-1, 1})],
        kind |-> R({"any", "any", "any", "same", "const", "near"}),
        rng |-> R({0, 0, 1, 7, 255}), rescale |-> R(BOOLEAN), map |-> R(BOOLEAN),
        mx |-> R({255, 51, 85, 17}), lst |-> Pct(15),
        M |-> R(2..5), N |-> R(1..2), A |-> [i \in 1..10 |-> R(-3..3)], b |-> [i \in 1..5 |-> R(-6..6)],
        n |-> R(1..9), incz |-> R(BOOLEAN), a |-> R(1..3), coll |-> R(BOOLEAN),
        pts |-> [d \in 1..2 |-> [i \in 1..3 |-> R(-12..12)]], npt |-> [d \in 1..2 |-> R({1, 2, 3, 4, 6})],
        expl |-> [d \in 1..2 |-> R(BOOLEAN)], scalar |-> Pct(20),
        gn |-> [d \in 1..3 |-> R({1, 2, 3, 4, 5, 7})], sd2 |-> R({1, 2, 4}),
        half |-> R(1..3), K |-> R(0..3), c4 |-> R({0, 0, 1, 8, 40}),
        frc8 |-> R(0..8), smn |-> R({0, -2}), smx |-> R({1, 9}),
        sz |-> [i \in 1..3 |-> <<R(1..3), R(1..3), R(1..3)>>], nsz |-> R(1..3), tk |-> R({2, 3, 4}),
        multi |-> R(BOOLEAN), C |-> R(1..3), lay |-> R({"C", "C", "F", "S"}), seed |-> R(0..9999)]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN Pick ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
