------------------------------- MODULE ConvRep -------------------------------
(***************************************************************************)
(* Layout of convolutional representations (which input axis is a channel,  *)
(* signal or filter axis) and the constraint set of convolutional           *)
(* dictionaries (support, zero mean, unit norm).                            *)
(***************************************************************************)
EXTENDS Arr

Take(s, n) == SubSeq(s, 1, n)
(* roles of the non-spatial axes of S: nS their number (0..2), dk = -1 if   *)
(* not specified, dCd = 1 if the dictionary has a channel axis              *)
DimK(nS, dCd, dk) == IF dk >= 0 THEN dk
                     ELSE IF nS = 0 THEN 0 ELSE IF nS = 2 THEN 1
                     ELSE IF dCd = 1 THEN 0 ELSE 1
Layout(nv, snv, nS, ssh, dCd, Cd, M, dk) ==
    \* nv: spatial sizes for D; snv: spatial sizes of S; ssh: shape of S
    LET dimN == Len(snv)
        dimK == DimK(nS, dCd, dk)
        dimC == nS - dimK
        C == IF dimC = 1 THEN ssh[dimN + 1] ELSE 1
        K == IF dimK = 1 THEN ssh[dimN + dimC + 1] ELSE 1
        Cx == C - Cd + 1
    IN [err |-> Cd > 1 /\ C # Cd, dimN |-> dimN, dimC |-> dimC, dimK |-> dimK, dimCd |-> dCd,
        C |-> C, Cd |-> Cd, K |-> K, M |-> M, Cx |-> Cx, Nv |-> snv, N |-> Prod(snv),
        axisN |-> [i \in 1..dimN |-> i - 1], axisC |-> dimN, axisK |-> dimN + 1, axisM |-> dimN + 2,
        shpD |-> nv \o <<Cd, 1, M>>, shpS |-> snv \o <<C, K, 1>>, shpX |-> snv \o <<Cx, K, M>>]
CscLayout(dsh, ssh, dk, dimN) ==
    LET dCd == Len(dsh) - dimN - 1 IN
    Layout(Take(dsh, dimN), Take(ssh, dimN), Len(ssh) - dimN, ssh, dCd,
           IF dCd = 0 THEN 1 ELSE dsh[Len(dsh) - 1], dsh[Len(dsh)], dk)

(* internal shape of an l1 weight with the axes of S, optionally followed   *)
(* by a filter axis                                                         *)
WShape(wsh, L) ==
    LET sd == L.dimN + L.dimC + L.dimK IN
    IF Len(wsh) = L.dimN + 3 THEN wsh
    ELSE IF Len(wsh) < sd THEN Ones(L.dimN + 3)
    ELSE Take(wsh, L.dimN) \o (IF L.dimC = 0 THEN <<1>> ELSE <<wsh[L.dimN + 1]>>)
         \o (IF L.dimK = 0 THEN <<1>> ELSE <<wsh[L.dimN + L.dimC + 1]>>)
         \o (IF Len(wsh) = sd THEN <<1>> ELSE <<wsh[Len(wsh)]>>)
(* internal shape of a mask: a single non-spatial axis is the signal axis   *)
(* if only the signal axis of S is non-trivial, otherwise the channel axis  *)
MShape(wsh, L) ==
    LET ck == Len(wsh) - L.dimN IN
    IF ck = 3 THEN wsh
    ELSE IF ck = 2 THEN wsh \o <<1>>
    ELSE IF ck = 0 THEN wsh \o <<1, 1, 1>>
    ELSE IF L.C = 1 /\ L.K > 1 THEN Take(wsh, L.dimN) \o <<1, wsh[L.dimN + 1], 1>>
    ELSE wsh \o <<1, 1>>

(* ---- dictionaries ------------------------------------------------------ *)
(* blocks: sequence (over groups of filters) of                             *)
(*   [M |-> number of filters, cb |-> sequence over channel groups of       *)
(*                                    [C |-> channels, sup |-> sizes]]       *)
RECURSIVE BlkOf(_, _, _)
BlkOf(bl, m, i) == IF m < bl[i].M THEN i ELSE BlkOf(bl, m - bl[i].M, i + 1)
RECURSIVE CBlkOf(_, _, _)
CBlkOf(cb, c, i) == IF c < cb[i].C THEN i ELSE CBlkOf(cb, c - cb[i].C, i + 1)
Supp(bl, c, m) == LET b == bl[BlkOf(bl, m, 1)] IN b.cb[CBlkOf(b.cb, c, 1)].sup
NFlt(bl) == Sum([i \in 1..Len(bl) |-> bl[i].M])
NChn(bl) == Sum([i \in 1..Len(bl[1].cb) |-> bl[1].cb[i].C])
SeqMax(s) == MaxTo(s, Len(s))
MaxSup(bl, dimN) == [d \in 1..dimN |->
     SeqMax([i \in 1..Len(bl) |-> SeqMax([j \in 1..Len(bl[i].cb) |-> bl[i].cb[j].sup[d]])])]
InSup(bl, ix, dimN) ==
    LET s == Supp(bl, ix[dimN + 1], ix[dimN + 3]) IN \A d \in 1..dimN : ix[d] < s[d]
(* restriction to the supports, on arrays nv \o <<C, K, M>> *)
Crop(x, bl, dimN) == Build(MaxSup(bl, dimN) \o SubSeq(x.sh, dimN + 1, dimN + 3),
    LAMBDA ix : IF InSup(bl, ix, dimN) THEN At(x, ix) ELSE 0)
ZPadTo(x, nv) == Build(nv \o SubSeq(x.sh, Len(nv) + 1, Len(x.sh)),
    LAMBDA ix : IF InRange(x.sh, ix) THEN At(x, ix) ELSE 0)
(* scale that clears the denominators of the channel means of filter m *)
RECURSIVE BlkScl(_)
BlkScl(cb) == IF cb = <<>> THEN 1 ELSE Prod(cb[1].sup) * BlkScl(Tail(cb))
Scl(bl, m, zm) == IF zm THEN BlkScl(bl[BlkOf(bl, m, 1)].cb) ELSE 1
SupSum(x, bl, ix, dimN) ==
    LET ks == {i \in 1..Len(x.v) : LET jx == Unravel(x.sh, i - 1) IN
                 /\ \A d \in (dimN + 1)..(dimN + 3) : jx[d] = ix[d]
                 /\ InSup(bl, jx, dimN)}
        q == SelectSeq([i \in 1..Len(x.v) |-> i], LAMBDA i : i \in ks)
    IN Sum([j \in 1..Len(q) |-> x.v[q[j]]])
(* the vector to be normalised, times Scl: zero outside the support         *)
VecAt(x, bl, dimN, zm, ix) ==
    IF ~InSup(bl, ix, dimN) THEN 0
    ELSE LET L == Scl(bl, ix[dimN + 3], zm) IN
         IF zm THEN L * At(x, ix) - (L \div Prod(Supp(bl, ix[dimN + 1], ix[dimN + 3])))
                                    * SupSum(x, bl, ix, dimN)
         ELSE At(x, ix)
VecArr(x, bl, dimN, zm, nv) == Build(nv \o SubSeq(x.sh, dimN + 1, dimN + 3),
                                     LAMBDA ix : VecAt(x, bl, dimN, zm, ix))
(* y (1/4096) is v scaled to unit norm over the first nn dimensions         *)
UnitOK(yr, yi, vr, vi, nn) ==
    /\ yr.sh = vr.sh
    /\ LET ds == 1..nn
           keys == {GroupKey(Unravel(vr.sh, i - 1), ds) : i \in 1..Len(vr.v)} IN
       \A key \in keys :
         LET gi == GroupIdx(vr.sh, ds, key)
             n2 == Sum([j \in 1..Len(gi) |-> vr.v[gi[j]] * vr.v[gi[j]] + vi.v[gi[j]] * vi.v[gi[j]]])
             r == ISqrt(n2 * 64)           \* 1/8
         IN \A j \in 1..Len(gi) :
              IF n2 = 0 THEN yr.v[gi[j]] = 0 /\ yi.v[gi[j]] = 0
              ELSE /\ Near(yr.v[gi[j]] * r, 32768 * vr.v[gi[j]], 4200 + r)
                   /\ Near(yi.v[gi[j]] * r, 32768 * vi.v[gi[j]], 4200 + r)
=============================================================================
