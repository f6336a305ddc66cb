------------------------------ MODULE OptTree ------------------------------
(***************************************************************************)
(* Option objects: a tree of options whose shape is fixed by the defaults.  *)
(* The tree is flattened: Leaves is the set of complete key paths with a    *)
(* plain value, Nodes the set of key paths that lead to a sub-tree.  The    *)
(* content of an option object is a function Leaves -> value.               *)
(*                                                                          *)
(* An assignment is a sequence of [p, v] pairs (the flattened right-hand    *)
(* side).  Its outcome is an error exactly if some path is not in the tree  *)
(* (unknown key) or ends at a sub-tree (invalid value); an erroneous        *)
(* assignment never changes anything but the leaves it names.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ErrOf(leaves, nodes, p) == IF p \in leaves THEN ""
                           ELSE IF p \in nodes THEN "InvalidValueError"
                           ELSE "UnknownKeyError"

Errs(leaves, nodes, asg) ==
    {ErrOf(leaves, nodes, asg[i].p) : i \in 1..Len(asg)} \ {""}

LastIdx(asg, p) == CHOOSE i \in 1..Len(asg) :
                     asg[i].p = p /\ \A j \in 1..Len(asg) : asg[j].p = p => j <= i
Names(asg) == {asg[i].p : i \in 1..Len(asg)}

(* couple: objective-evaluation flags that follow the option AuxVarObj *)
CplOn(asg, couple) == couple /\ "AuxVarObj" \in Names(asg)

Overlay(c, asg, couple, T, F) ==
    [q \in DOMAIN c |->
       IF q \in Names(asg) THEN asg[LastIdx(asg, q)].v
       ELSE IF CplOn(asg, couple) /\ q = "fEvalX"
         THEN (IF asg[LastIdx(asg, "AuxVarObj")].v = T THEN F ELSE T)
       ELSE IF CplOn(asg, couple) /\ q = "gEvalY"
         THEN (IF asg[LastIdx(asg, "AuxVarObj")].v = T THEN T ELSE F)
       ELSE c[q]]

(***************************************************************************)
(* Design model: two objects over a three level tree; histories of          *)
(* construct / assign / erroneous assign.  Ghost last[i][p] is the value    *)
(* of the last accepted write (or default).                                 *)
(***************************************************************************)
CONSTANTS MaxOps, Vals
MLeaves == {"A", "B.C", "B.D.E"}
MNodes == {"B", "B.D"}
MPaths == MLeaves \cup MNodes \cup {"Z", "B.Z", "B.D.Z"}
Dflt == [p \in MLeaves |-> 0]
VARIABLES obj, last, n
vars == <<obj, last, n>>
Ids == {1, 2}
None == <<>>

Asgs == {<<>>} \cup {<<[p |-> p, v |-> v]>> : p \in MPaths, v \in Vals}
        \cup {<<[p |-> p, v |-> v], [p |-> q, v |-> v]>> :
                p \in MLeaves, q \in MPaths, v \in Vals}

Init == obj = [i \in Ids |-> None] /\ last = [i \in Ids |-> Dflt] /\ n = 0
New(i) == \E a \in Asgs :
            /\ Errs(MLeaves, MNodes, a) = {}
            /\ obj' = [obj EXCEPT ![i] = Overlay(Dflt, a, FALSE, 0, 1)]
            /\ last' = [last EXCEPT ![i] = [p \in MLeaves |->
                     IF p \in Names(a) THEN a[LastIdx(a, p)].v ELSE 0]]
Assign(i) == /\ obj[i] # None
             /\ \E a \in Asgs :
                  IF Errs(MLeaves, MNodes, a) = {}
                    THEN /\ obj' = [obj EXCEPT ![i] = Overlay(@, a, FALSE, 0, 1)]
                         /\ last' = [last EXCEPT ![i] = [p \in MLeaves |->
                              IF p \in Names(a) THEN a[LastIdx(a, p)].v
                              ELSE @[p]]]
                    ELSE UNCHANGED <<obj, last>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E i \in Ids : New(i) \/ Assign(i)
Spec == Init /\ [][Next]_vars

LastWriteWins == \A i \in Ids : obj[i] # None => obj[i] = last[i]
ShapeFixed == \A i \in Ids : obj[i] # None => DOMAIN obj[i] = MLeaves
Isolation == [][\E i \in Ids : \A j \in Ids : j # i => obj'[j] = obj[j]]_vars
=============================================================================
