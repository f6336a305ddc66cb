--------------------------------- MODULE StatMC ---------------------------------
(***************************************************************************)
(* Design level check of the display layout: for all label lengths and      *)
(* column widths the header determines the columns, and a row printed in    *)
(* these columns is read back as the numbers it was printed from; a row     *)
(* with a number moved to another column or altered is not accepted.        *)
(***************************************************************************)
EXTENDS Stat
CONSTANT MaxW
VARIABLES len, wd, val
Init == /\ len \in [1..3 -> 1..2]
        /\ wd \in [1..3 -> 2..MaxW]
        /\ val \in [1..3 -> {0, 7, 10, 99, 5}]
Spec == Init /\ [][UNCHANGED <<len, wd, val>>]_<<len, wd, val>>
Lb == [i \in 1..3 |-> [j \in 1..len[i] |-> 96 + i]]
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
RightTo(t, w) == Blank(w - Len(t)) \o t
RowOf(v, w) == RightTo(Dec(v[1]), w[1]) \o Blank(2) \o RightTo(Dec(v[2]), w[2])
            \o Blank(2) \o RightTo(Dec(v[3]), w[3])
NumOf(n) == [c |-> "num", s |-> 1, m |-> IF n = 0 THEN 0 ELSE IF n < 10 THEN n * 10000000 ELSE n * 1000000,
             e |-> IF n < 10 THEN 0 ELSE 1]
Vals(v) == [i \in 1..3 |-> NumOf(v[i])]
Layout == LET h == Header(Lb, wd) IN Len(h) = LineLen(wd) /\ Widths(h, Lb) = wd
RowFits == RowOK(RowOf(val, wd), wd, Vals(val))
(* displaced or altered numbers are noticed *)
Shift ==
  /\ val[1] # val[2] => ~RowOK(RowOf(<<val[2], val[1], val[3]>>, wd), wd, Vals(val))
  /\ \A i \in 1..3 : ~RowOK(RowOf([val EXCEPT ![i] = (@ + 1) % 100], wd), wd, Vals(val))
  /\ (wd[1] > 2) => ~RowOK(RowOf(val, [wd EXCEPT ![1] = @ - 1, ![2] = @ + 1]), wd, Vals(val))
Reads == \A i \in 1..3 : LET p == ParseNum(Dec(val[i])) IN p.ok /\ Val(p.ds) = val[i] /\ p.int
=============================================================================
