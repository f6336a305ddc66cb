------------------------------- MODULE ArrMC --------------------------------
(* Laws of the array operations, checked for every shape and parameter in a  *)
(* small scope: one state per choice.                                         *)
EXTENDS Arr
CONSTANTS MaxN
VARIABLES sh, blk, stp, ax
vars == <<sh, blk, stp, ax>>
Init == /\ sh \in ((1..MaxN) \X (1..MaxN))
        /\ blk \in ((1..sh[1]) \X (1..sh[2])) /\ stp \in ((1..2) \X (1..2))
        /\ ax \in 0..1
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Img == [sh |-> <<sh[1], sh[2]>>, v |-> [i \in 1..(sh[1] * sh[2]) |-> i * i]]
B == <<blk[1], blk[2]>>
S == <<stp[1], stp[2]>>
(* every contribution of the extracted blocks to a pixel is that pixel *)
RoundTrip == LET E == ExtractBlocks(Img, B, S) IN
    /\ WellFormed(E)
    /\ \A i \in 1..Size(Img) : LET q == Contrib(E, Img.sh, S, Unravel(Img.sh, i - 1)) IN
         \A j \in 1..Len(q) : q[j] = Img.v[i]
(* with unit steps every pixel is covered *)
Covered == stp = <<1, 1>> => \A i \in 1..Size(Img) :
    Contrib(ExtractBlocks(Img, B, S), Img.sh, S, Unravel(Img.sh, i - 1)) # <<>>
(* blocks are the rolling windows *)
BlocksAreWindows == stp = <<1, 1>> =>
    LET W == RollingWindow(Img, B, [d \in 1..2 |-> Img.sh[d] - B[d] + 1], "wrap") IN
    ExtractBlocks(Img, B, S).v = W.v
SplitRebuild == \A i \in 1..Size(Img) :
    LET ix == Unravel(Img.sh, i - 1) IN
    At(SplitPart(Img, ax, ix[ax + 1]), Drop(ix, ax + 1)) = Img.v[i]
PadCrop == LET P == ZPad(Img, B, ax) IN
    /\ Sum(P.v) = Sum(Img.v) /\ WellFormed(P)
    /\ \A i \in 1..Size(Img) : At(P, [Unravel(Img.sh, i - 1) EXCEPT ![ax + 1] = @ + B[1]]) = Img.v[i]
SubsamplePartition == (\A d \in 1..2 : B[d] < Img.sh[d] /\ Img.sh[d] % B[d] = 0) =>
    SortI(Subsample(Img, B, FALSE, "reflect").v) = SortI(Img.v)
=============================================================================
