---------------------------- MODULE OptTreeTrace ----------------------------
EXTENDS TraceDriver, FiniteSets
O == INSTANCE OptTree WITH MaxOps <- 0, Vals <- {}, obj <- 0, last <- 0, n <- 0

(* st: [lv, nd, dflt, couple, T, F, objs]; objs: id (string) -> content *)
Ids(s) == DOMAIN s.objs
SetObj(s, i, c) == [s EXCEPT !.objs = [j \in Ids(s) \cup {i} |->
                                         IF j = i THEN c ELSE s.objs[j]]]
ToSet(q) == {q[i] : i \in 1..Len(q)}

(* observation: all live objects, content per leaf path *)
ObsShape(s, ev) == \A i \in Ids(s) :
        i \in DOMAIN ev.obs /\ DOMAIN ev.obs[i] = s.lv
ObsEq(s, ev) == \A i \in Ids(s) : i \in DOMAIN ev.obs /\ ev.obs[i] = s.objs[i]

Good(s2, ev, cl) ==
    Verdict(s2, << <<cl, ev.exc = "">>,
                   <<"shape of the option tree is fixed", ObsShape(s2, ev)>>,
                   <<"content = defaults overlaid with accepted writes", ObsEq(s2, ev)>> >>)

(* erroneous assignment: only named leaves may have changed, to the named  *)
(* value                                                                    *)
PartialOK(c, o, asg) ==
    /\ DOMAIN o = DOMAIN c
    /\ \A q \in DOMAIN c :
         \/ o[q] = c[q]
         \/ \E i \in 1..Len(asg) : asg[i].p = q /\ asg[i].v = o[q]

OptJudge(s, ev) ==
    CASE ev.e = "init" ->
           OK([lv |-> DOMAIN ev.leaves, nd |-> ToSet(ev.nodes),
               dflt |-> ev.leaves, couple |-> ev.couple,
               T |-> ev.T, F |-> ev.F, objs |-> <<>>])
      [] ev.e = "new" ->
           IF O!Errs(s.lv, s.nd, ev.asg) = {}
             THEN Good(SetObj(s, ev.i, O!Overlay(s.dflt, ev.asg, s.couple, s.T, s.F)),
                       ev, "valid construction accepted")
             ELSE Verdict(s, << <<"erroneous construction rejected",
                                  ev.exc \in O!Errs(s.lv, s.nd, ev.asg)>>,
                                <<"other objects unaffected", ObsEq(s, ev)>> >>)
      [] ev.e = "set" ->
           LET c == s.objs[ev.i] IN
           IF O!Errs(s.lv, s.nd, ev.asg) = {}
             THEN Good(SetObj(s, ev.i, O!Overlay(c, ev.asg, s.couple /\ ev.cpl, s.T, s.F)),
                       ev, "valid assignment accepted")
             ELSE LET ok == ObsShape(s, ev)
                      o == ev.obs[ev.i]
                      s2 == IF ok THEN SetObj(s, ev.i, o) ELSE s IN
                  Verdict(s2,
                    << <<"erroneous assignment rejected",
                         ev.exc \in O!Errs(s.lv, s.nd, ev.asg)>>,
                       <<"shape of the option tree is fixed", ok>>,
                       <<"erroneous assignment changes nothing else",
                         ok /\ PartialOK(c, o, ev.asg) /\ ObsEq(s2, ev)>> >>)
      [] ev.e = "get" ->
           LET er == O!Errs(s.lv, s.nd, <<[p |-> ev.p, v |-> 0]>>) IN
           IF ev.p \in s.lv
             THEN Verdict(s, << <<"read returns the stored value",
                                  ev.exc = "" /\ ev.v = s.objs[ev.i][ev.p]>> >>)
             ELSE IF ev.p \in s.nd THEN OK(s)
             ELSE Verdict(s, << <<"reading an unknown key is rejected",
                                  ev.exc \in {"UnknownKeyError", "KeyError"}>> >>)
      [] ev.e = "clone" ->   \* j := copy of i
           Good(SetObj(s, ev.j, s.objs[ev.i]), ev, "copy works")
      [] ev.e = "fresh" ->   \* a newly created default object
           Verdict(s, << <<"new objects have default content",
                           ev.c = s.dflt>>,
                         <<"existing objects unaffected", ObsEq(s, ev)>> >>)
      [] OTHER -> BAD(s, "unexpected exception")
=============================================================================
