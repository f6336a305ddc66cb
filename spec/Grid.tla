-------------------------------- MODULE Grid --------------------------------
(* Exhaustive search of a grid of parameter values, computed by one process,  *)
(* by a pool of workers or by the ranks of a message passing job.             *)
(*                                                                            *)
(* A grid is a tuple of axes, an axis a sequence of sample points.  Points    *)
(* are numbered 0.. in row-major order.  A function table holds the values of *)
(* one or more functions at every point: tab[p + 1][f].  NAN marks undefined  *)
(* values, which are never optimal.                                           *)
EXTENDS Integers, Sequences, FiniteSets
NAN == 2147483646
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Lens(axes) == [k \in 1..Len(axes) |-> Len(axes[k])]
NPoints(axes) == Prod(Lens(axes))
(* index on axis k (from 1) of point p (from 0) *)
Coord(ls, p, k) == (p \div Prod(SubSeq(ls, k + 1, Len(ls)))) % ls[k]
Better(fmin, a, b) == IF b = NAN THEN TRUE ELSE IF fmin THEN a <= b ELSE a >= b
(* point p is an optimum of function f *)
Optimal(tab, f, fmin, p) ==
    /\ tab[p + 1][f] # NAN
    /\ \A q \in 1..Len(tab) : Better(fmin, tab[p + 1][f], tab[q][f])
(* chunk of n points given to rank r of s: the first n % s ranks get one more *)
ChunkLen(n, s, r) == n \div s + (IF r < n % s THEN 1 ELSE 0)
RECURSIVE ChunkBegin(_, _, _)
ChunkBegin(n, s, r) == IF r = 0 THEN 0 ELSE ChunkBegin(n, s, r - 1) + ChunkLen(n, s, r - 1)
Chunk(n, s, r) == ChunkBegin(n, s, r)..(ChunkBegin(n, s, r) + ChunkLen(n, s, r) - 1)
=============================================================================
