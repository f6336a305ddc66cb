------------------------------- MODULE FourGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, done
R(S) == RandomElement(S)
Pct(p) == RandomElement(1..100) <= p
Ops == {"fft", "ifft", "rfft", "irfft", "dct", "conv", "norm", "rnorm", "grad", "gradT", "gfilt",
        "tik", "alloc"}
Pick ==
  \E op \in {R(Ops)}, nd \in {R({1, 2, 2, 3})} :
  c' = [op |-> op, nd |-> nd,
        sh |-> [d \in 1..nd |-> R(IF nd = 1 THEN 1..8 ELSE IF nd = 2 THEN 1..5 ELSE 1..3)],
        re |-> [i \in 1..64 |-> IF Pct(20) THEN 0 ELSE R(-5..5)],
        im |-> [i \in 1..64 |-> R(-4..4)],
        b |-> [i \in 1..64 |-> R(-3..3)],
        bsh |-> [d \in 1..3 |-> R(1..4)],
        ax |-> R({<<>>, <<0>>, <<-1>>, <<0, 1>>, <<1, 0>>, <<1>>, <<-2>>, <<-2, -1>>, <<0, 2>>, <<1, 2>>, <<0, 1, 2>>, <<2, 0>>}),
        s |-> [d \in 1..3 |-> R(1..5)], uses |-> Pct(40),
        org |-> [d \in 1..3 |-> R(-1..3)], useorg |-> Pct(60),
        cplx |-> Pct(30), zp |-> R(BOOLEAN), bax |-> R(0..2),
        lm |-> R({0, 1, 2, 4, 10}), npd |-> R({0, 0, 1, 2}),
        dt |-> R({"f8", "f8", "f4"}), lay |-> R({"C", "F", "R"})]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN Pick ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
