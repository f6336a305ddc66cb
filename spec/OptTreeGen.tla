----------------------------- MODULE OptTreeGen -----------------------------
(* Histories over a four level option tree, two objects.                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES h, live, done
Leaves == {"A", "B.C", "B.D.E", "B.D.F.G", "H", "B.D.I"}
Nodes == {"B", "B.D", "B.D.F"}
Unk == {"Z", "B.Z", "B.D.Z", "B.D.F.Z", "Z.Z", "B.Z.C", "E", "C", "B.A", "B.D.C"}
Vals == 1..3
Ids == {1, 2}
One == {[p |-> p, v |-> v] : p \in Leaves, v \in Vals}
Bad == {[p |-> p, v |-> 1] : p \in Unk \cup Nodes}
PickAsg == {<<x, y>> : x \in One, y \in One}
Kinds == {"new", "newbad", "path", "pathbad", "chain", "upd", "updbad", "sub",
          "get", "copy", "pickle", "fresh"}
Step ==
  /\ Len(h) < Depth
  /\ \E k \in Kinds, i \in Ids, x \in {RandomElement(One)},
         y \in {RandomElement(One)}, b \in {RandomElement(Bad)} :
       LET asg == CASE k \in {"new", "upd"} -> <<x, y>>
                    [] k \in {"newbad", "updbad"} -> <<b>>
                    [] k = "pathbad" -> <<b>>
                    [] OTHER -> <<x>>
       IN /\ (k \in {"new", "newbad"}) \/ i \in live
          /\ h' = Append(h, [k |-> k, i |-> i, asg |-> asg])
          /\ live' = IF k = "new" THEN live \cup {i}
                     ELSE IF k \in {"copy", "pickle"} THEN live \cup {3 - i}
                     ELSE live
  /\ done' = FALSE
Finish == Len(h) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<h, live>>
Init == h = <<>> /\ live = {} /\ done = FALSE
Next == Step \/ Finish
Emit == done => PrintT("SCN " \o ToJson(h))
Spec == Init /\ [][Next]_<<h, live, done>>
=============================================================================
