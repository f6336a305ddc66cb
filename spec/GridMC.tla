------------------------------- MODULE GridMC --------------------------------
(* The distributed grid search as a concurrent system: every rank learns its  *)
(* chunk by a prefix sum over the chunk lengths, evaluates the points of its  *)
(* chunk one at a time, and then takes part in one collective gather, which   *)
(* needs every rank and gives every rank the concatenation of all chunks.     *)
EXTENDS Grid, TLC
CONSTANTS MaxN, MaxS
VARIABLES n, s, pc, sent, val, res
vars == <<n, s, pc, sent, val, res>>
Rank == 0..(s - 1)
Fn(p) == (3 * p + 1) % 5
(* prefix sums received so far: rank r gets the sum of the lengths 0..r once  *)
(* ranks 0..r have contributed                                               *)
Init == /\ n \in 1..MaxN /\ s \in 1..MaxS
        /\ pc = [r \in 0..(s - 1) |-> "scan"] /\ sent = {}
        /\ val = [r \in 0..(s - 1) |-> <<>>]
        /\ res = [r \in 0..(s - 1) |-> <<>>]
Contribute(r) == /\ pc[r] = "scan" /\ r \notin sent /\ sent' = sent \cup {r}
                 /\ UNCHANGED <<n, s, pc, val, res>>
RECURSIVE SumLen(_)
SumLen(r) == ChunkLen(n, s, r) + (IF r = 0 THEN 0 ELSE SumLen(r - 1))
Start(r) == /\ pc[r] = "scan" /\ (0..r) \subseteq sent
            /\ pc' = [pc EXCEPT ![r] = "eval"]
            /\ UNCHANGED <<n, s, sent, val, res>>
Eval(r) == LET b == SumLen(r) - ChunkLen(n, s, r) IN
           /\ pc[r] = "eval" /\ Len(val[r]) < ChunkLen(n, s, r)
           /\ val' = [val EXCEPT ![r] = Append(@, Fn(b + Len(@)))]
           /\ UNCHANGED <<n, s, pc, sent, res>>
Enter(r) == /\ pc[r] = "eval" /\ Len(val[r]) = ChunkLen(n, s, r)
            /\ pc' = [pc EXCEPT ![r] = "gather"]
            /\ UNCHANGED <<n, s, sent, val, res>>
RECURSIVE Concat(_)
Concat(r) == IF r < 0 THEN <<>> ELSE Concat(r - 1) \o val[r]
Gather(r) == /\ pc[r] = "gather" /\ \A q \in Rank : pc[q] \in {"gather", "done"}
             /\ res' = [res EXCEPT ![r] = Concat(s - 1)]
             /\ pc' = [pc EXCEPT ![r] = "done"]
             /\ UNCHANGED <<n, s, sent, val>>
AllDone == \A r \in Rank : pc[r] = "done"
Next == \/ \E r \in Rank : Contribute(r) \/ Start(r) \/ Eval(r) \/ Enter(r) \/ Gather(r)
        \/ AllDone /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* chunks are disjoint, contiguous, in rank order, cover the grid, and differ *)
(* in length by at most one                                                  *)
Partition ==
    /\ UNION {Chunk(n, s, r) : r \in Rank} = 0..(n - 1)
    /\ \A a, b \in Rank : a # b => Chunk(n, s, a) \cap Chunk(n, s, b) = {}
    /\ \A a, b \in Rank : ChunkLen(n, s, a) - ChunkLen(n, s, b) \in {-1, 0, 1}
    /\ \A r \in Rank : pc[r] # "scan" =>
          SumLen(r) - ChunkLen(n, s, r) = ChunkBegin(n, s, r)
(* every rank ends with the table of the function over the whole grid        *)
Table == \A r \in Rank : pc[r] = "done" => res[r] = [p \in 1..n |-> Fn(p - 1)]
Termination == <>AllDone
=============================================================================
