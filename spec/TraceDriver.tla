---------------------------- MODULE TraceDriver ----------------------------
(***************************************************************************)
(* Generic driver that walks a recorded implementation trace (ndjson, one   *)
(* event per line, several traces per file) through a specification.        *)
(*                                                                          *)
(* A concrete trace module supplies  Judge(st, ev) == [st |-> .., bad |-> ..]*)
(* where st is the abstract specification state before the event, ev the    *)
(* recorded event, and bad is "" if the specification allows the event (and *)
(* the observations it carries), else the name of the violated clause.      *)
(* Every trace starts with an event whose field e is "init".                *)
(*                                                                          *)
(* The verdict is total: a rejected event is reported as                    *)
(*     <<"BAD", line, clause>>                                              *)
(* the remainder of that trace is skipped (its abstract state is not        *)
(* trustworthy any more) and checking resumes at the next "init".  The last *)
(* step prints <<"DONE", lines, traces>>, which the runner requires.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Judge(_, _), StNone

VARIABLES tr_l, tr_st, tr_dead, tr_ntr

tvars == <<tr_l, tr_st, tr_dead, tr_ntr>>

Trace == ndJsonDeserialize(IOEnv.VTRACE)

TraceInit == tr_l = 1 /\ tr_st = StNone /\ tr_dead = FALSE /\ tr_ntr = 0

Consume ==
    /\ tr_l <= Len(Trace)
    /\ LET ev == Trace[tr_l] IN
       IF tr_dead /\ ev.e # "init"
         THEN /\ tr_st' = tr_st /\ tr_dead' = TRUE /\ tr_ntr' = tr_ntr
         ELSE LET r == Judge(tr_st, ev) IN
              /\ IF r.bad # "" THEN PrintT(<<"BAD", tr_l, r.bad>>) ELSE TRUE
              /\ tr_st' = r.st
              /\ tr_dead' = (r.bad # "")
              /\ tr_ntr' = tr_ntr + (IF ev.e = "init" THEN 1 ELSE 0)
    /\ tr_l' = tr_l + 1

Finish ==
    /\ tr_l = Len(Trace) + 1
    /\ PrintT(<<"DONE", Len(Trace), tr_ntr>>)
    /\ tr_l' = tr_l + 1
    /\ UNCHANGED <<tr_st, tr_dead, tr_ntr>>

TraceNext == Consume \/ Finish

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* helpers used by the judges *)
OK(s)      == [st |-> s, bad |-> ""]
BAD(s, c)  == [st |-> s, bad |-> c]
Abs(x)     == IF x < 0 THEN -x ELSE x
Within(a, b, tol) == Abs(a - b) <= tol
(* first failing clause of a sequence of <<name, bool>> pairs *)
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN ""
                ELSE IF cs[1][2] THEN FirstBad(Tail(cs)) ELSE cs[1][1]
Verdict(s, cs) == [st |-> s, bad |-> FirstBad(cs)]
=============================================================================
