--------------------------------- MODULE FigGen ---------------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, done
R(S) == RandomElement(S)
Pct(p) == RandomElement(1..100) <= p
Panel(k) ==
  [kind |-> R({"plot", "plot", "plot", "contour", "imview", "imview", "surf"}), nr |-> R(2..4), nc |-> R(2..4),
   one |-> Pct(40), givex |-> R(BOOLEAN), givey |-> R(BOOLEAN),
   ptyp |-> R({"plot", "plot", "semilogx", "semilogy", "loglog", "bad"}),
   tl |-> R(BOOLEAN), xl |-> R(BOOLEAN), yl |-> R(BOOLEAN), zl |-> R(BOOLEAN), lg |-> Pct(30),
   lw |-> R(0..3), lwname |-> R(BOOLEAN), ms |-> R(0..3), msname |-> R(BOOLEAN),
   xlog |-> Pct(20), ylog |-> Pct(20), lev |-> R(BOOLEAN), cfnt |-> R({-1, 0, 8, 10}), cfmt |-> R(BOOLEAN),
   vlim |-> Pct(30), dt |-> R({"f4", "f8", "f8", "u1", "i8", "u2", "i2"}), rgb |-> R({0, 0, 0, 3, 3, 2}),
   fltscl |-> R(BOOLEAN), copy |-> R(BOOLEAN), cbar |-> R({"no", "yes", "none"}), cmap |-> R(BOOLEAN),
   norm |-> Pct(20), el |-> R({0, 20, 45}), az |-> R({0, 30, 70}), cntr |-> R(BOOLEAN),
   inv |-> Pct(35), again |-> Pct(35), data |-> [i \in 1..48 |-> R(-16..16)],
   coord |-> [i \in 1..4 |-> <<R(-8..20), R(-8..20)>>]]
Pick ==
  \E np \in {IF Pct(50) THEN 1 ELSE 2} :
  c' = [np |-> np, mode |-> R({"new", "new", "fig", "ax"}), fgsz |-> R(BOOLEAN), fgnm |-> R(0..3),
        panel |-> [k \in 1..np |-> Panel(k)], close |-> R({"all", "fig", "num"}),
        ops |-> [i \in 1..R(3..9) |-> [op |-> R({"scroll", "scroll", "scroll", "scroll", "key", "off"}), ax |-> R(1..4),
                               dir |-> R({"in", "in", "out"}), fx |-> R(1..99), fy |-> R(1..99),
                               key |-> R({"e", "c", "e", "c", "x", "q"})]]]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN Pick ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
