-------------------------------- MODULE StatGen --------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANT NNames
VARIABLES c, done
R(S) == RandomElement(S)
Pct(p) == RandomElement(1..100) <= p
Pick ==
  \E op \in {IF Pct(35) THEN "fmt" ELSE "run"}, n \in {R(1..7)} :
  c' = [op |-> op, nl |-> n, len |-> [i \in 1..7 |-> R(1..8)],
        lab |-> [i \in 1..7 |-> [j \in 1..8 |-> R(97..122)]],
        w0 |-> R(1..9), dlt |-> R(6..9), prec |-> R(0..5), dflt |-> Pct(25),
        map |-> [i \in 1..7 |-> IF Pct(30) THEN R(3..9) ELSE 0],
        mkind |-> [i \in 1..7 |-> R({"d", "e", "f"})], left |-> R(BOOLEAN),
        v |-> [i \in 1..7 |-> R(0..999)], ex |-> [i \in 1..7 |-> R(-12..12)],
        n |-> R(1..NNames), var |-> R(0..3), verbose |-> Pct(80), header |-> Pct(75),
        fast |-> Pct(20), solves |-> R(1..3), iters |-> R({0, 1, 1, 2, 3}), chg |-> R(BOOLEAN),
        btx |-> R(BOOLEAN), btd |-> R(BOOLEAN), auto |-> R({"none", "on", "off"})]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN Pick ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
