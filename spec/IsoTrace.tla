------------------------------ MODULE IsoTrace -------------------------------
(* Judges recorded interleavings of operations on solver objects: the         *)
(* observation of an object must be a function of its abstract state.  st:    *)
(* the abstract state of each object and the observations seen so far for     *)
(* each abstract state.                                                       *)
EXTENDS TraceDriver, Iso, FiniteSetsExt
NearV(a, b) == a = b \/ Within(a, b, 3 + Abs(a) \div 50000)
Same(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : NearV(u[i], v[i])
(* observation o of state a against what has been seen *)
Consistent(seen, a, o) == \A r \in seen : r.a = a => Same(r.o, o)
IsoJudge(s, ev) ==
    CASE ev.e = "init" -> OK([obj |-> <<>>, seen |-> {}])
      [] ev.e = "new" ->
           LET a == New(ev.cfg) IN
           [st |-> [s EXCEPT !.obj = (ev.i :> a) @@ @, !.seen = @ \cup {[a |-> a, o |-> ev.o]}],
            bad |-> FirstBad(<<
              <<"initial state depends on other objects", Consistent(s.seen, a, ev.o)>>,
              <<"inputs altered by the constructor", ev.pure>>,
              <<"options altered by the constructor", ev.opure>> >>)]
      [] ev.e = "op" ->
           LET a == Apply(s.obj[ev.i], ev.op) IN
           [st |-> [s EXCEPT !.obj = (ev.i :> a) @@ @, !.seen = @ \cup {[a |-> a, o |-> ev.o]}],
            bad |-> FirstBad(<<
              <<"result depends on more than the history of the object (" \o ev.op \o ")",
                  Consistent(s.seen, a, ev.o)>>,
              <<"inputs altered", ev.pure>>,
              <<"options altered", ev.opure>> >>)]
      [] OTHER -> BAD(s, "unexpected exception")
=============================================================================
