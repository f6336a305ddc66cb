-------------------------------- MODULE NetMC --------------------------------
(* Every behaviour of a download with up to MaxTry attempts; prints each      *)
(* complete one for replay on the code.                                       *)
EXTENDS Net, TLC, Json
CONSTANT MaxTry
VARIABLES s, h
Init == \E m \in 0..MaxTry : s = Start(m) /\ h = <<>>
Next == CanTry(s) /\ \E o \in Outcomes : s' = Try(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_<<s, h>> /\ WF_<<s, h>>(Next)
Bounded == s.n <= s.maxtry /\ s.n = Len(h)
OnlyTimeoutsRetried == \A i \in 1..(Len(h) - 1) : h[i] \in Timeouts
Result == /\ s.pc = "done" <=> (h # <<>> /\ h[Len(h)] = "ok")
          /\ s.pc = "fail" => h[Len(h)] # "ok"
          /\ (s.pc = "fail" /\ s.n < s.maxtry) => h[Len(h)] \in Errors
Termination == <>(s.pc # "run")
Emit == s.pc # "run" => PrintT("SCN " \o ToJson([maxtry |-> s.maxtry, h |-> h]))
=============================================================================
