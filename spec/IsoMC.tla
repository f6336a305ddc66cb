-------------------------------- MODULE IsoMC --------------------------------
(* A process with several solver objects.  Each object keeps a concrete value *)
(* that evolves by a deterministic step function, some objects are given the  *)
(* same options object and inputs.  Checks that the concrete value of every   *)
(* object is the function Val of its abstract state in every interleaving;    *)
(* with Leak = TRUE the step also reads and writes a variable shared by all   *)
(* objects (as a class attribute or a shared options object would be), and    *)
(* the invariant must then fail (the check expects TLC to find that).         *)
EXTENDS Iso, TLC
CONSTANTS NObj, MaxOps, Leak
VARIABLES abs, val, shared, n
vars == <<abs, val, shared, n>>
Cfgs == {1, 2}
Ops == {"solve", "dict1", "dict2", "query"}
Step(cfg, v, op) == CASE op = "solve" -> (3 * v + cfg) % 17
                      [] op = "dict1" -> (v + 5) % 17
                      [] op = "dict2" -> (v + 7) % 17
                      [] OTHER -> v
RECURSIVE Val(_)
Val(s) == IF s.h = <<>> THEN s.cfg
          ELSE Step(s.cfg, Val([s EXCEPT !.h = SubSeq(@, 1, Len(@) - 1)]), s.h[Len(s.h)])
Init == /\ \E c \in [1..NObj -> Cfgs] :
             abs = [i \in 1..NObj |-> New(c[i])] /\ val = c
        /\ shared = 0 /\ n = 0
Do(i, op) == /\ abs' = [abs EXCEPT ![i] = Apply(@, op)]
             /\ val' = [val EXCEPT ![i] = Step(abs[i].cfg, (@ + (IF Leak THEN shared ELSE 0)) % 17, op)]
             /\ shared' = IF Leak /\ op = "solve" THEN 1 ELSE shared
Copy(i, j) == /\ i # j /\ abs' = [abs EXCEPT ![j] = abs[i]] /\ val' = [val EXCEPT ![j] = val[i]]
              /\ UNCHANGED shared
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E i \in 1..NObj, op \in Ops : Do(i, op)
           \/ \E i, j \in 1..NObj : Copy(i, j)
Spec == Init /\ [][Next]_vars
Function == \A i \in 1..NObj : val[i] = Val(abs[i])
NonInterference == \A i, j \in 1..NObj : abs[i] = abs[j] => val[i] = val[j]
=============================================================================
