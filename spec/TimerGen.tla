------------------------------ MODULE TimerGen ------------------------------
(* Generates operation histories for replay on the real stopwatch.  Calls   *)
(* with a list of labels of which some are unknown are excluded (which of   *)
(* the other labels are affected before the error is not specified).        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES h, c, lab, done

Cfgs == {[labs |-> L, dflt |-> d, all |-> al] :
            L \in {<<>>, <<"a">>, <<"a", "b">>}, d \in {"main", "a"},
            al \in {"all", "ALL"}}
Args == {[kind |-> "dflt", ls |-> <<>>], [kind |-> "one", ls |-> <<"a">>],
         [kind |-> "one", ls |-> <<"b">>], [kind |-> "list", ls |-> <<"a", "b">>],
         [kind |-> "list", ls |-> <<"b", "main">>]}
ArgsA == Args \cup {[kind |-> "all", ls |-> <<>>]}
CArgs == {x \in Args : x.kind # "list"}
SetOf(q) == {q[i] : i \in 1..Len(q)}
Sel(x) == IF x.kind = "dflt" THEN {c.dflt} ELSE SetOf(x.ls)
Ops == {[op |-> "start", a |-> x] : x \in Args}
       \cup {[op |-> o, a |-> x] : o \in {"stop", "reset"},
              x \in {y \in ArgsA : y.kind = "list" => Sel(y) \subseteq lab}}
       \cup {[op |-> o, a |-> x] : o \in {"ctx", "ctxexc", "xct", "xctexc"}, x \in CArgs}
Init == h = <<>> /\ c \in Cfgs /\ lab = SetOf(c.labs) /\ done = FALSE
Step == /\ Len(h) < Depth
        /\ \E o \in Ops, d \in 0..3 :
             /\ h' = Append(h, [o |-> o, dt |-> d])
             /\ lab' = IF o.op \in {"start", "ctx", "ctxexc"} THEN lab \cup Sel(o.a) ELSE lab
        /\ c' = c /\ done' = FALSE
(* a single final step, so that simulation emits one history per walk *)
Finish == Len(h) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<h, c, lab>>
Next == Step \/ Finish
Emit == done => PrintT("SCN " \o ToJson([c |-> c, h |-> h]))
Spec == Init /\ [][Next]_<<h, c, lab, done>>
=============================================================================
