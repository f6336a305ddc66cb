------------------------------ MODULE GridTrace ------------------------------
(* Judges recorded grid searches.  st: the search (axes, table of function    *)
(* values, number of processes whose results are expected) and the count of   *)
(* results seen.                                                              *)
EXTENDS TraceDriver, Grid
Res(s, ev) ==
    LET ls == Lens(s.axes)
        nd == Len(ls)
        nf == Len(s.tab[1])
        n == Len(s.tab)
        fsh == IF s.scalar THEN <<>> ELSE <<nf>>
        idxsh == fsh
        okidx == /\ Len(ev.sidx) = nd + (IF s.scalar THEN 0 ELSE 1)
                 /\ \A k \in 1..nd : ev.sidx[k].sh = idxsh /\ \A f \in 1..nf :
                      ev.sidx[k].v[f] \in 0..(ls[k] - 1)
        pt(f) == LET RECURSIVE G(_, _)
                     G(k, a) == IF k > nd THEN a ELSE G(k + 1, a * ls[k] + ev.sidx[k].v[f])
                 IN G(1, 0)
    IN FirstBad(<<
       <<"shape of the table of function values", ev.fvmx.sh = ls \o fsh>>,
       <<"table of function values", ev.fvmx.v =
            [i \in 1..(n * nf) |-> s.tab[((i - 1) \div nf) + 1][((i - 1) % nf) + 1]]>>,
       <<"form of the optimal index", okidx>>,
       <<"function index", s.scalar \/ ev.sidx[nd + 1].v = [f \in 1..nf |-> f - 1]>>,
       <<"optimal index", \A f \in 1..nf : Optimal(s.tab, f, s.fmin, pt(f))>>,
       <<"optimal function value", ev.sfvl.sh = fsh /\ \A f \in 1..nf :
            ev.sfvl.v[f] = s.tab[pt(f) + 1][f]>>,
       <<"shape of the optimal parameters", ev.sprm.sh = <<nd>> \o fsh>>,
       <<"optimal parameters", \A k \in 1..nd, f \in 1..nf :
            ev.sprm.v[(k - 1) * nf + f] = s.axes[k][ev.sidx[k].v[f] + 1]>>,
       <<"grid arrays altered", ev.pure>> >>)
GridJudge(s, ev) ==
    CASE ev.e = "init" -> OK([axes |-> ev.axes, tab |-> ev.tab, scalar |-> ev.scalar,
                              fmin |-> ev.fmin, size |-> ev.size, seen |-> {}])
      [] ev.e = "res" -> [st |-> [s EXCEPT !.seen = @ \cup {ev.rank}], bad |-> Res(s, ev)]
      [] ev.e = "end" -> Verdict(s, << <<"every process returns", s.seen = 0..(s.size - 1)>> >>)
      [] ev.e = "hang" -> BAD(s, "the search does not terminate")
      [] OTHER -> BAD(s, "unexpected exception")
=============================================================================
