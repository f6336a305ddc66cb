-------------------------------- MODULE Arr --------------------------------
(***************************************************************************)
(* Multi-dimensional arrays [sh |-> shape, v |-> values in C order] with    *)
(* 0-based multi-indices (sequences), and the array operations of the       *)
(* package as pure functions on them.                                       *)
(***************************************************************************)
EXTENDS Num, TLC

RECURSIVE Prod(_)
Prod(sh) == IF Len(sh) = 0 THEN 1 ELSE sh[1] * Prod(Tail(sh))
RECURSIVE Unravel(_, _)
Unravel(sh, i) == IF Len(sh) = 0 THEN <<>>
                  ELSE LET p == Prod(Tail(sh)) IN
                       <<i \div p>> \o Unravel(Tail(sh), i % p)
RECURSIVE RavelFrom(_, _, _)
RavelFrom(sh, ix, a) == IF Len(sh) = 0 THEN a
                        ELSE RavelFrom(Tail(sh), Tail(ix), a * sh[1] + ix[1])
Ravel(sh, ix) == RavelFrom(sh, ix, 0)
Size(A) == Prod(A.sh)
WellFormed(A) == Len(A.v) = Prod(A.sh)
At(A, ix) == A.v[Ravel(A.sh, ix) + 1]
Build(sh, F(_)) == [sh |-> sh, v |-> [i \in 1..Prod(sh) |-> F(Unravel(sh, i - 1))]]
InRange(sh, ix) == \A d \in 1..Len(sh) : ix[d] >= 0 /\ ix[d] < sh[d]
Ones(n) == [i \in 1..n |-> 1]
(* Python axis number (possibly negative) to a 1-based dimension *)
Dim(n, ax) == IF ax < 0 THEN n + ax + 1 ELSE ax + 1
Drop(s, d) == SubSeq(s, 1, d - 1) \o SubSeq(s, d + 1, Len(s))
InsertAt(s, d, x) == SubSeq(s, 1, d - 1) \o <<x>> \o SubSeq(s, d, Len(s))

(* set of 1-based dims given by a sequence of Python axes *)
Dims(n, axs) == {Dim(n, axs[i]) : i \in 1..Len(axs)}
AllDims(n) == 1..n
(* keep-dims reduction: the group of a multi-index *)
KeepShape(sh, ds) == [d \in 1..Len(sh) |-> IF d \in ds THEN 1 ELSE sh[d]]
GroupKey(ix, ds) == [d \in 1..Len(ix) |-> IF d \in ds THEN 0 ELSE ix[d]]
(* values of the group with the given key, in C order *)
GroupIdx(sh, ds, key) ==
    SelectSeq([i \in 1..Prod(sh) |-> i], LAMBDA i : GroupKey(Unravel(sh, i - 1), ds) = key)
Group(A, ds, key) == LET gi == GroupIdx(A.sh, ds, key) IN [j \in 1..Len(gi) |-> A.v[gi[j]]]
(* broadcast access: dimensions of size one are stretched, missing leading  *)
(* dimensions are added (numpy rules)                                       *)
BAt(A, ix) ==
    LET off == Len(ix) - Len(A.sh) IN
    At(A, [d \in 1..Len(A.sh) |-> IF A.sh[d] = 1 THEN 0 ELSE ix[d + off]])

(* --- sporco.array ------------------------------------------------------- *)
ZPad(A, pd, ax) ==
    LET d == ax + 1
        sh2 == [A.sh EXCEPT ![d] = @ + pd[1] + pd[2]]
        F(ix) == LET jx == [ix EXCEPT ![d] = @ - pd[1]] IN
                 IF InRange(A.sh, jx) THEN At(A, jx) ELSE 0
    IN Build(sh2, F)

AtLeastNd(n, A) == IF Len(A.sh) >= n THEN A
                   ELSE [A EXCEPT !.sh = A.sh \o Ones(n - Len(A.sh))]

SplitPart(A, ax, j) ==
    LET d == Dim(Len(A.sh), ax)
        F(ix) == At(A, InsertAt(ix, d, j)) IN Build(Drop(A.sh, d), F)

Wrap(i, n) == i % n
(* reflect without repeating the edge (numpy pad mode 'reflect'), right side *)
Reflect(i, n) == IF i < n THEN i ELSE 2 * (n - 1) - i
PadIdx(mode, i, n) == IF mode = "wrap" THEN Wrap(i, n)
                      ELSE IF mode = "edge" THEN NMin(i, n - 1)
                      ELSE Reflect(i, n)

RollingWindow(A, wsz, wnm, mode) ==
    LET n == Len(A.sh)
        F(ix) == At(A, [d \in 1..n |-> PadIdx(mode, ix[d] + ix[d + n], A.sh[d])])
    IN Build(wsz \o wnm, F)

CDiv(a, b) == (a + b - 1) \div b
Subsample(A, step, pad, mode) ==
    LET n == Len(A.sh)
        cnt == [d \in 1..n |-> IF pad THEN CDiv(A.sh[d], step[d]) ELSE A.sh[d] \div step[d]]
        F(ix) == At(A, [d \in 1..n |-> PadIdx(mode, ix[d] + ix[d + n] * step[d], A.sh[d])])
    IN Build(step \o cnt, F)

NumBlocks(imgsz, blksz, stp) ==
    [d \in 1..Len(imgsz) |-> IF d <= Len(blksz) THEN (imgsz[d] - blksz[d]) \div stp[d] + 1
                             ELSE imgsz[d]]
ExtractBlocks(A, blksz, stp) ==
    LET n == Len(A.sh)
        nb == Len(blksz)
        cnt == NumBlocks(A.sh, blksz, stp)
        F(ix) == LET q == Unravel(cnt, ix[nb + 1]) IN
                 At(A, [d \in 1..n |-> IF d <= nb THEN q[d] * stp[d] + ix[d] ELSE q[d]])
    IN Build(blksz \o <<Prod(cnt)>>, F)

(* all values that the blocks contribute to pixel px, in block order *)
Contrib(B, imgsz, stp, px) ==
    LET nb == Len(B.sh) - 1
        blksz == SubSeq(B.sh, 1, nb)
        cnt == NumBlocks(imgsz, blksz, stp)
        hits == SelectSeq([j \in 1..Prod(cnt) |-> j - 1],
                  LAMBDA j : LET q == Unravel(cnt, j) IN
                     \A d \in 1..Len(imgsz) :
                        IF d <= nb THEN px[d] >= q[d] * stp[d] /\ px[d] < q[d] * stp[d] + blksz[d]
                        ELSE px[d] = q[d])
    IN [t \in 1..Len(hits) |->
          LET q == Unravel(cnt, hits[t]) IN
          At(B, [d \in 1..nb |-> px[d] - q[d] * stp[d]] \o <<hits[t]>>)]

(* sort a sequence of integers (insertion) *)
RECURSIVE Ins(_, _)
Ins(x, s) == IF s = <<>> THEN <<x>> ELSE IF x <= s[1] THEN <<x>> \o s
             ELSE <<s[1]>> \o Ins(x, Tail(s))
RECURSIVE SortI(_)
SortI(s) == IF s = <<>> THEN <<>> ELSE Ins(s[1], SortI(Tail(s)))
Median2(s) == LET t == SortI(s) n == Len(t) IN      \* twice the median
              IF n % 2 = 1 THEN 2 * t[(n + 1) \div 2]
              ELSE t[n \div 2] + t[n \div 2 + 1]
=============================================================================
