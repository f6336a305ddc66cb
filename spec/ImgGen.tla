--------------------------------- MODULE ImgGen ---------------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, done
R(S) == RandomElement(S)
Pct(p) == RandomElement(1..100) <= p
Set(T) == [scaled |-> R({"none", "none", "yes", "no"}), dtype |-> R({"none", "none", "uint8", "int16", "int64", "float32", "float64"}),
           zoom |-> R({0, 0, 0, 5, 10, 15, 20}), gray |-> R({"none", "none", "yes", "no"})]
Pick ==
  \E n \in {R(1..6)} :
  c' = [obj |-> Set(1), style |-> R({"plain", "slash", "dot", "rel"}),
        files |-> [i \in 1..n |-> [dir |-> R({"", "", "a", "b", "a/c", "long name"}), kind |-> R({"rgb", "rgb", "gray", "text", "fake", "empty"}),
                                   ext |-> R({".png", ".png", ".bmp", ".tif"}), nr |-> R(2..5), nc |-> R(2..5), seed |-> R(0..9999)]],
        calls |-> [i \in 1..R(1..5) |-> [f |-> R(1..n), set |-> Set(1), how |-> R({"path", "group", "missing"}), crop |-> Pct(35),
                                     r0 |-> R(0..1), c0 |-> R(0..1), r1 |-> R(1..2), c1 |-> R(1..2)]]]
Init == c = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN Pick ELSE c' = c
Emit == done = 2 => PrintT("SCN " \o ToJson(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
