----------------------------- MODULE TimerTrace -----------------------------
(* Judges recorded histories of sporco.util.Timer / ContextTimer.           *)
EXTENDS TraceDriver, FiniteSets
T == INSTANCE Timer WITH MaxNow <- 0, MaxOps <- 0, s <- 0, now <- 0,
                         nops <- 0, run <- 0

(* obs: sequence of [l, known, tot, cur]; rows: printed table *)
ObsOK(s, now, obs) ==
    \A i \in 1..Len(obs) :
       LET o == obs[i] IN
       /\ o.known = (o.l \in s.lab)
       /\ o.known => /\ o.tot = T!TTotal(s, o.l, now)
                     /\ o.cur = T!TCurrent(s, o.l, now)

RowsOK(s, now, rows) ==
    /\ {rows[i].l : i \in 1..Len(rows)} = s.lab
    /\ Len(rows) = Cardinality(s.lab)
    /\ \A i \in 1..Len(rows) :
         rows[i].l \in s.lab =>
           /\ rows[i].acc = s.acc[rows[i].l]
           /\ rows[i].cur = (IF s.on[rows[i].l] = -1 THEN -1
                             ELSE now - s.on[rows[i].l])

DefaultOK(s, now, d) ==
    /\ d.tot = (IF s.dflt \in s.lab THEN T!TTotal(s, s.dflt, now) ELSE 0)
    /\ d.cur = (IF s.dflt \in s.lab THEN T!TCurrent(s, s.dflt, now) ELSE 0)

Check(s, ev, exc) ==
    Verdict(s, << <<"error raised exactly for unknown labels", ev.exc = exc>>,
                  <<"existing labels", {ev.labels[i] : i \in 1..Len(ev.labels)}
                                         = s.lab>>,
                  <<"elapsed = accumulated running time", ObsOK(s, ev.now, ev.obs)>>,
                  <<"elapsed of default label", DefaultOK(s, ev.now, ev.d)>>,
                  <<"printed table", RowsOK(s, ev.now, ev.rows)>> >>)

TimerJudge(s, ev) ==
    CASE ev.e = "init" -> OK(T!TNew({ev.labs[i] : i \in 1..Len(ev.labs)},
                                    ev.dflt, ev.all))
      [] ev.e = "obs" -> Check(s, ev, "")
      [] ev.e = "start" ->
           LET sel == T!TStartSel(s, ev.kind, ev.ls) IN
           Check(T!TStart(s, sel, ev.now), ev, "")
      [] ev.e = "stop" ->
           LET sel == T!TSel(s, ev.kind, ev.ls) IN
           IF T!TKnown(s, sel) THEN Check(T!TStop(s, sel, ev.now), ev, "")
           ELSE Check(s, ev, "KeyError")
      [] ev.e = "reset" ->
           LET sel == T!TSel(s, ev.kind, ev.ls) IN
           IF T!TKnown(s, sel) THEN Check(T!TReset(s, sel), ev, "")
           ELSE Check(s, ev, "KeyError")
      (* an exception raised inside a timed block must propagate out of it *)
      [] ev.e = "block" ->
           Verdict(s, << <<"exception propagation", ev.raised = ev.seen>> >>)
      [] OTHER -> BAD(s, "unexpected event")
=============================================================================
