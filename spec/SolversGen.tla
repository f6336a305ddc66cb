------------------------------ MODULE SolversGen ------------------------------
(* Random solver instances and runs.                                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Classes
VARIABLES c, done
R(S) == RandomElement(S)
Pct(p) == RandomElement(1..100) <= p
Pick ==
  \E cls \in {R(Classes)}, dN \in {R({1, 1, 2})}, lg \in {Pct(30)}, big \in {R({1, 3, 8})} :
  c' = [cls |-> cls, dimN |-> dN,
        N |-> [d \in 1..2 |-> R(IF dN = 1 THEN 3..6 ELSE 2..4)],
        L |-> [d \in 1..2 |-> R(IF dN = 1 THEN 1..3 ELSE 1..2)],
        M |-> R({1, 2, 2, 3}), C |-> R({1, 1, 2, 2, 3}), K |-> R({1, 1, 2, 2, 3}), cdm |-> R(BOOLEAN), dk |-> R(-1..1),
        n |-> R(2..4), p |-> R(2..4), m |-> R(1..3),
        D |-> [i \in 1..36 |-> IF Pct(15) THEN 0 ELSE R(-2..2)],
        D2 |-> [i \in 1..36 |-> IF Pct(15) THEN 0 ELSE R(-2..2)],
        Bm |-> [i \in 1..9 |-> R(-2..2)],
        S |-> [i \in 1..48 |-> IF Pct(10) THEN 0 ELSE R(-big..big)],
        Z |-> [i \in 1..96 |-> IF Pct(40) THEN 0 ELSE R(-2..2)],
        y0 |-> [i \in 1..96 |-> IF Pct(40) THEN 0 ELSE R(-3..3)],
        u0 |-> [i \in 1..96 |-> R(-2..2)], hy0 |-> Pct(25), hu0 |-> Pct(40),
        lm |-> R({0, 1, 4, 8, 16, 40}), mu |-> R({0, 1, 4, 16, 32}), rad |-> R({256, 1024, 4096, 10000, 40000}),
        wk |-> R({"none", "none", "full", "m", "s"}), w |-> [i \in 1..96 |-> IF Pct(20) THEN 0 ELSE R(1..12)],
        w2k |-> R({"none", "m"}), w2 |-> [i \in 1..4 |-> R(1..8)],
        wgk |-> R({"none", "m"}), wg |-> [i \in 1..4 |-> R(0..3)],
        mk |-> R({"none", "n", "full", "bin"}), W |-> [i \in 1..48 |-> IF Pct(30) THEN 0 ELSE R(1..6)],
        nn |-> Pct(20), nbc |-> Pct(20), fx |-> R(BOOLEAN), gy |-> R(BOOLEAN), aux |-> R(BOOLEAN), useaux |-> R(BOOLEAN),
        std |-> Pct(40), rx |-> R(BOOLEAN), rv |-> R({"X", "Y0", "Y1"}), hm |-> Pct(40), zm |-> Pct(40),
        rho |-> R({128, 256, 512, 1024}), norho |-> Pct(8), al |-> R({4, 4, 5, 7}), ar |-> Pct(50), arp |-> R(1..2), rr |-> R(BOOLEAN),
        nit |-> R(1..3), sd |-> Pct(40), f4 |-> Pct(10), lay |-> R({"C", "F"}), nb |-> R(2..3),
        tsh |-> [d \in 1..3 |-> R(2..4)], tnd |-> R(1..3), axk |-> R(1..6), cax |-> Pct(40),
        tw |-> R({"none", "none", "s", "full"}), dw |-> R({"none", "s", "full"}), A |-> [i \in 1..9 |-> R(-1..2)],
        ash |-> [d \in 1..3 |-> R(1..2)], mus |-> [i \in 1..3 |-> R(1..3)], nomu |-> R(BOOLEAN),
        tr |-> R(BOOLEAN), im |-> Pct(25), sL |-> R({16, 24, 32, 64, 500}), mom |-> R(0..3), ssp |-> R(0..4), nd |-> R(0..1),
        x |-> [i \in 1..96 |-> R(-3..3)]]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN Pick ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
