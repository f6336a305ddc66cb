------------------------------- MODULE StatTrace -------------------------------
(* Judges the status display and the iteration statistics of recorded runs.     *)
EXTENDS TraceDriver
S == INSTANCE Stat

(* direct calls of solve_status_str *)
FmtClauses(ev) ==
  LET n == Len(ev.lb)
      wd == [i \in 1..n |-> IF ev.map[i] # 0 THEN ev.map[i]
                            ELSE IF i = 1 THEN ev.w0 ELSE ev.prec + ev.dlt] IN
  <<<<"header of solve_status_str", ev.hdr = S!Header(ev.lb, wd)>>,
    <<"separator length of solve_status_str", ev.nsep = S!LineLen(wd)>>,
    <<"row formatted by solve_status_str", S!RowOK(ev.row, wd, ev.vals)>>,
    <<"precision of solve_status_str",
      LET tk == S!Tokens(ev.row) IN
      \A i \in 1..n : (ev.map[i] = 0 /\ i > 1) =>
          Len(S!ParseNum(SubSeq(ev.row, tk[i][1], tk[i][2])).ds) \in {1, ev.prec + 1}>>>>

(* the text printed by one call of solve *)
CallClauses(ev, cl, sh) ==
  LET n == Len(cl.recs)
      hd == IF ev.header THEN 2 ELSE 0
      wd == IF ev.header /\ Len(cl.lines) >= 1 THEN S!Widths(cl.lines[1], ev.lcodes) ELSE <<>> IN
  IF ~ev.verbose THEN <<<<"silent unless Verbose is set", cl.lines = <<>>>>>>
  ELSE
  <<<<"number of lines displayed", Len(cl.lines) = n + hd + (IF ev.header THEN 1 ELSE 0)>>,
    <<"header shows the labels", ev.header => wd # <<>>>>,
    <<"separators match the header", ev.header =>
        /\ cl.lines[2] = S!Dashes(Len(cl.lines[1]))
        /\ cl.lines[Len(cl.lines)] = S!Dashes(Len(cl.lines[1]))>>,
    <<"rows show the recorded statistics", \A i \in 1..n :
        S!RowOK(cl.lines[i + hd], wd, [j \in 1..Len(sh) |-> cl.recs[i][S!IdxOf(ev.fields, sh[j])]])>>>>

RECURSIVE AllCalls(_, _, _)
AllCalls(ev, i, sh) == IF i > Len(ev.calls) THEN <<>>
                       ELSE CallClauses(ev, ev.calls[i], sh) \o AllCalls(ev, i + 1, sh)
RunClauses(ev) ==
  LET sh == S!Shown(ev.kind, ev.fields, ev.autorho, ev.bt) IN
  <<<<"record layout", /\ ev.fields[1] = "Iter" /\ ev.fields[Len(ev.fields)] = "Time"
                       /\ ev.verbose => /\ \A j \in 1..Len(ev.labels) : ev.labels[j] \in DOMAIN S!LabelField
                                        /\ [j \in 1..Len(ev.labels) |-> S!LabelField[ev.labels[j]]] = sh>>>>
  \o AllCalls(ev, 1, sh)

(* array view of the records *)
GisClauses(ev) ==
  <<<<"getitstat has the fields of the records", ev.n > 0 => ev.gfields = ev.fields>>,
    <<"getitstat holds the recorded values", ev.n > 0 =>
        /\ Len(ev.cols) = Len(ev.fields)
        /\ \A f \in 1..Len(ev.fields) : ev.cols[f] = [i \in 1..ev.n |-> ev.rows[i][f]]>>,
    <<"iterations are numbered consecutively", ev.seq>>>>

(* dictionary learning records *)
DlClauses(ev) ==
  LET Of(fs, r, x) == r[S!IdxOf(fs, x)] IN
  <<<<"sparse coding entries of the record", \A i \in 1..Len(ev.fields) :
        /\ ev.fields[i] \in DOMAIN S!XSrc => ev.rec[i] = Of(ev.xf, ev.x, S!XSrc[ev.fields[i]])
        /\ (ev.fields[i] \in DOMAIN S!XObj /\ ~ev.acc) => ev.rec[i] = Of(ev.xf, ev.x, S!XObj[ev.fields[i]])>>,
    <<"dictionary update entries of the record", \A i \in 1..Len(ev.fields) :
        ev.fields[i] \in DOMAIN S!DSrc => ev.rec[i] = Of(ev.df, ev.d, S!DSrc[ev.fields[i]])>>>>

StatJudge(st, ev) ==
  IF ev.e = "init" THEN OK(0)
  ELSE IF ev.e = "exc" THEN BAD(0, "unexpected exception")
  ELSE Verdict(0, CASE ev.e = "fmt" -> FmtClauses(ev)
                    [] ev.e = "run" -> RunClauses(ev)
                    [] ev.e = "gis" -> GisClauses(ev)
                    [] ev.e = "dl" -> DlClauses(ev)
                    [] OTHER -> <<<<"unknown event", FALSE>>>>)
=============================================================================
