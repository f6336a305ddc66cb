------------------------------- MODULE Timer -------------------------------
(***************************************************************************)
(* Semantics of the labelled stopwatch (sporco.util.Timer) and its context  *)
(* manager wrapper.  A state is a record                                    *)
(*   lab   set of labels that exist                                         *)
(*   acc   accumulated completed running time per label                     *)
(*   on    start instant of the running interval, or -1 when stopped        *)
(*   dflt / all   the default label and the string denoting all labels      *)
(* The meaning of a history is additionally given by an independent ghost:  *)
(* run[l] = number of clock units during which l was running since its last *)
(* reset; the invariant ties the two together.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LabelsU == {"a", "b", "main"}

TNew(labs, dflt, all) ==
    [lab |-> labs, acc |-> [l \in LabelsU |-> 0],
     on |-> [l \in LabelsU |-> -1], dflt |-> dflt, all |-> all]

SeqSet(q) == {q[i] : i \in 1..Len(q)}

(* argument kinds: "dflt" (no argument), "one" (a string), "list" *)
TStartSel(s, kind, ls) == IF kind = "dflt" THEN {s.dflt} ELSE SeqSet(ls)
TSel(s, kind, ls) ==
    IF kind = "dflt" THEN {s.dflt}
    ELSE IF kind = "all" THEN s.lab
    ELSE SeqSet(ls)

TStart(s, sel, now) ==
    [s EXCEPT !.lab = @ \cup sel,
              !.on  = [l \in LabelsU |-> IF l \in sel /\ s.on[l] = -1
                                         THEN now ELSE s.on[l]]]

TKnown(s, sel) == sel \subseteq s.lab

TStop(s, sel, now) ==
    [s EXCEPT !.acc = [l \in LabelsU |-> IF l \in sel /\ s.on[l] # -1
                                THEN s.acc[l] + now - s.on[l] ELSE s.acc[l]],
              !.on  = [l \in LabelsU |-> IF l \in sel THEN -1 ELSE s.on[l]]]

TReset(s, sel) ==
    [s EXCEPT !.acc = [l \in LabelsU |-> IF l \in sel THEN 0 ELSE s.acc[l]],
              !.on  = [l \in LabelsU |-> IF l \in sel THEN -1 ELSE s.on[l]]]

TCurrent(s, l, now) == IF s.on[l] = -1 THEN 0 ELSE now - s.on[l]
TTotal(s, l, now)   == s.acc[l] + TCurrent(s, l, now)

(***************************************************************************)
(* Design model: all histories over a small clock.                          *)
(***************************************************************************)
CONSTANTS MaxNow, MaxOps
VARIABLES s, now, nops, run
vars == <<s, now, nops, run>>

Init == /\ s \in {TNew(L, d, "all") : L \in {{}, {"a"}, {"a", "b"}},
                                      d \in {"main", "a"}}
        /\ now = 0 /\ nops = 0
        /\ run = [l \in LabelsU |-> 0]

Tick == /\ now < MaxNow
        /\ now' = now + 1
        /\ run' = [l \in LabelsU |-> run[l] + IF s.on[l] # -1 THEN 1 ELSE 0]
        /\ UNCHANGED <<s, nops>>

Sels == {<<"dflt", <<>>>>, <<"one", <<"a">>>>, <<"one", <<"b">>>>,
         <<"list", <<"a", "b">>>>, <<"list", <<"b", "main">>>>}

Op == /\ nops < MaxOps /\ nops' = nops + 1 /\ now' = now
      /\ \/ \E x \in Sels : s' = TStart(s, TStartSel(s, x[1], x[2]), now)
                            /\ UNCHANGED run
         \/ \E x \in Sels \cup {<<"all", <<>>>>} :
               LET sel == TSel(s, x[1], x[2]) IN
               IF TKnown(s, sel)
                 THEN \/ s' = TStop(s, sel, now) /\ UNCHANGED run
                      \/ /\ s' = TReset(s, sel)
                         /\ run' = [l \in LabelsU |-> IF l \in sel THEN 0
                                                      ELSE run[l]]
                 ELSE UNCHANGED <<s, run>>

Next == Tick \/ Op
Spec == Init /\ [][Next]_vars

TotalIsRunningTime == \A l \in s.lab : TTotal(s, l, now) = run[l]
CurrentLeTotal == \A l \in s.lab : TCurrent(s, l, now) <= TTotal(s, l, now)
UnknownNeverRuns == \A l \in LabelsU \ s.lab : s.on[l] = -1 /\ s.acc[l] = 0
=============================================================================
