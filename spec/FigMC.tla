--------------------------------- MODULE FigMC ---------------------------------
(* The view of a figure with two axes under arbitrary scroll and key events.     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth, Grid
R == 4096
F == INSTANCE Fig WITH Ref <- R
VARIABLES view, open, lev, n, last
vars == <<view, open, lev, n, last>>
Pos == {(R \div Grid) * k : k \in 0..Grid}
Init == view = [a \in 1..2 |-> <<0, R>>] /\ open = TRUE /\ lev = [a \in 1..2 |-> 0] /\ n = 0 /\ last = <<>>
Scroll(a, p, d) ==
    /\ open /\ n < Depth /\ n' = n + 1
    /\ p >= view[a][1] /\ p <= view[a][2]
    /\ view' = [view EXCEPT ![a] = F!Zoom(@, p, d)]
    /\ lev' = [lev EXCEPT ![a] = IF d = "in" THEN @ + 1 ELSE IF @ > 0 THEN @ - 1 ELSE 0]
    /\ last' = <<a, p, d, view[a]>>
    /\ UNCHANGED open
Close == open /\ open' = FALSE /\ last' = <<>> /\ UNCHANGED <<view, lev, n>>
Next == Close \/ \E a \in 1..2, p \in Pos, d \in {"in", "out"} : Scroll(a, p, d)
Spec == Init /\ [][Next]_vars
(* the view stays within what was drawn, and its size depends on the number of   *)
(* effective zoom steps only                                                      *)
Confined == \A a \in 1..2 : view[a][1] >= 0 /\ view[a][2] <= R /\ view[a][1] < view[a][2]
Size == \A a \in 1..2 : (view[a][2] - view[a][1]) * (2 ^ lev[a]) \in R - 2 * (2 ^ lev[a])..R + 2 * (2 ^ lev[a])
(* the point under the cursor stays visible, and stays where it is when zooming  *)
(* in; zooming out at the same place undoes it                                    *)
Cursor == last # <<>> =>
    LET v == view[last[1]]  o == last[4]  p == last[2] IN
    /\ p >= v[1] /\ p <= v[2]
    /\ last[3] = "in" =>
        /\ (p - v[1]) * 2 - (p - o[1]) \in -1..1
        /\ LET u == F!Zoom(v, p, "out") IN u[1] - o[1] \in -2..2 /\ u[2] - o[2] \in -2..2
(* enough steps out restore the full view *)
RECURSIVE OutN(_, _, _)
OutN(iv, p, k) == IF k = 0 THEN iv ELSE OutN(F!Zoom(iv, p, "out"), p, k - 1)
Restore == \A a \in 1..2 : OutN(view[a], view[a][1], lev[a] + 1) = <<0, R>>
=============================================================================
