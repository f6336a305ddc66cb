------------------------------ MODULE ProxTrace ------------------------------
(* Judges recorded calls of sporco.prox (and linalg.proj_l2ball).             *)
EXTENDS TraceDriver
P == INSTANCE Prox
A == INSTANCE Arr
N == INSTANCE Num

(* ev.re, ev.im: input array in half units; ev.xr, ev.xi: output, 1/1024;     *)
(* ev.axn: TRUE if all axes form one group, else ev.ax the axes               *)
Ds(ev) == IF ev.axn THEN A!AllDims(Len(ev.re.sh)) ELSE A!Dims(Len(ev.re.sh), ev.ax)
Keys(ev) == {A!GroupKey(A!Unravel(ev.re.sh, i - 1), Ds(ev)) : i \in 1..Len(ev.re.v)}
Grp(ev, key) == LET gi == A!GroupIdx(ev.re.sh, Ds(ev), key) IN
                [j \in 1..Len(gi) |-> <<ev.re.v[gi[j]], ev.im.v[gi[j]]>>]
OGrp(ev, key) == LET gi == A!GroupIdx(ev.re.sh, Ds(ev), key) IN
                [j \in 1..Len(gi) |-> <<ev.xr.v[gi[j]], ev.xi.v[gi[j]]>>]
SameShape(ev) == ev.xr.sh = ev.re.sh
EachGroup(ev, T(_, _, _)) ==
    SameShape(ev) /\ \A key \in Keys(ev) : T(OGrp(ev, key), Grp(ev, key), A!BAt(ev.alpha, key))
Elem(ev, i) == <<ev.re.v[i], ev.im.v[i]>>
OElem(ev, i) == <<ev.xr.v[i], ev.xi.v[i]>>
EachElem(ev, T(_, _, _)) ==
    SameShape(ev) /\ \A i \in 1..Len(ev.re.v) :
       T(OElem(ev, i), Elem(ev, i), A!BAt(ev.alpha, A!Unravel(ev.re.sh, i - 1)))
NormEach(ev, T(_, _)) ==
    LET ks == A!KeepShape(ev.re.sh, Ds(ev)) IN
    /\ IF A!Prod(ks) = 1 THEN Len(ev.xr.v) = 1 ELSE ev.xr.sh = ks
    /\ \A key \in Keys(ev) : T(ev.xr.v[A!Ravel(ks, key) + 1], Grp(ev, key))

Opj(ev) ==
  CASE ev.op = "prox_l1" -> EachElem(ev, P!SoftOK)
    [] ev.op = "prox_l0" -> EachElem(ev, P!HardOK)
    [] ev.op = "prox_l2" -> EachGroup(ev, P!ProxL2OK)
    [] ev.op \in {"proj_l2", "proj_l2ball"} -> EachGroup(ev, P!ProjL2OK)
    [] ev.op = "proj_l1" -> EachGroup(ev, P!ProjL1OK)
    [] ev.op = "prox_sl1l2" ->
         EachGroup(ev, LAMBDA x, g, a : P!ProxSL1L2OK(x, g, a, ev.beta))
    [] ev.op = "prox_dl1l2" ->
         EachGroup(ev, LAMBDA x, g, a : P!ProxDL1L2OK(x, g, a, ev.beta))
    [] ev.op = "norm_l0" -> NormEach(ev, LAMBDA r, g : r = 1024 * P!Norm0(g, ev.eps))
    [] ev.op = "norm_l1" -> NormEach(ev, LAMBDA r, g : N!Near(r, P!Norm1(g), 3 * Len(g)))
    [] ev.op = "norm_2l2" -> NormEach(ev, LAMBDA r, g : N!Near(r, 256 * P!GSum(g, P!SqHalf), 1))
    [] ev.op = "norm_l2" -> NormEach(ev, LAMBDA r, g : N!Near(r, P!Norm2(g), 3))
    [] ev.op = "norm_l21" ->
         Len(ev.xr.v) = 1 /\
         LET ks == A!KeepShape(ev.re.sh, Ds(ev)) IN
         N!Near(ev.xr.v[1], N!Sum([i \in 1..A!Prod(ks) |-> P!Norm2(Grp(ev, A!Unravel(ks, i - 1)))]),
                3 * A!Prod(ks))
    [] ev.op = "norm_dl1l2" ->
         NormEach(ev, LAMBDA r, g : N!Near(r, P!Norm1(g) - P!Mul(ev.beta, P!Norm2(g)), 5 + 3 * Len(g)))
    [] ev.op = "norm_nuclear" -> P!NucNormOK(ev.val, ev.V)
    [] ev.op = "prox_nuclear" -> P!NucProxOK(ev.X, ev.s, ev.V, ev.a)
    [] ev.op = "nd2d" ->
         \* the rows of the 2-D array are the groups, and the inverse restores
         /\ ev.back = ev.re
         /\ ev.flat.sh = <<Len(ev.re.v) \div Len(Grp(ev, CHOOSE k \in Keys(ev) : TRUE)),
                           Len(Grp(ev, CHOOSE k \in Keys(ev) : TRUE))>>
         /\ LET row(r) == [j \in 1..ev.flat.sh[2] |-> ev.flat.v[(r - 1) * ev.flat.sh[2] + j]]
                vals(key) == [j \in 1..Len(Grp(ev, key)) |-> Grp(ev, key)[j][1]]
            IN {A!SortI(row(r)) : r \in 1..ev.flat.sh[1]} = {A!SortI(vals(k)) : k \in Keys(ev)}
    [] OTHER -> FALSE
ProxJudge(s, ev) ==
    CASE ev.e = "init" -> OK(0)
      [] ev.e = "op" ->
           Verdict(0, << <<ev.op, Opj(ev)>>, <<"input array altered", ev.pure>> >>)
      [] OTHER -> BAD(s, "unexpected exception")
=============================================================================
