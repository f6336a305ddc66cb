--------------------------------- MODULE Iso ---------------------------------
(* Solver objects as independent deterministic machines.  The state of an     *)
(* object is its configuration together with the sequence of state changing   *)
(* operations applied to it (solve calls and replacements of the dictionary). *)
(* Queries, copies and storage do not change the state; a copy starts with    *)
(* the state of its original.  What can be observed of an object is a         *)
(* function of its state alone: operations on other objects, the order in     *)
(* which operations on different objects are interleaved and the use of       *)
(* other facilities of the process have no effect on it.                      *)
EXTENDS Integers, Sequences, FiniteSets
New(cfg) == [cfg |-> cfg, h |-> <<>>]
Apply(s, op) == IF op \in {"query", "store", "copy", "other"} THEN s
                ELSE [s EXCEPT !.h = Append(@, op)]
=============================================================================
