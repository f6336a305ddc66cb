------------------------------- MODULE LinTrace -------------------------------
(* Judges recorded calls of sporco.linalg.                                    *)
EXTENDS TraceDriver
L == INSTANCE Lin
N == INSTANCE Num

D(ev) == L!Dim(Len(ev.b.re.sh), ev.axM)
DK(ev) == IF ev.hasK THEN L!Dim(Len(ev.b.re.sh), ev.axK) ELSE 0
Ident(n) == [sh |-> <<n, n>>, v |-> [q \in 1..(n * n) |-> IF (q - 1) \div n = (q - 1) % n THEN 1 ELSE 0]]
(* frobenius inner product of 2-D slices i, j of a 3-D array *)
SliceIP(B, i, j) == N!Sum([p \in 1..(B.sh[1] * B.sh[2]) |->
      B.v[(p - 1) * B.sh[3] + i] * B.v[(p - 1) * B.sh[3] + j]])
Slice(B, i) == [sh |-> <<B.sh[1], B.sh[2]>>,
                v |-> [p \in 1..(B.sh[1] * B.sh[2]) |-> B.v[(p - 1) * B.sh[3] + i]]]
NonInc(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1] - 1
Opj(ev) ==
  CASE ev.op = "system" -> L!SystemOK(ev.ah, ev.d, ev.b, ev.x, D(ev), DK(ev), ev.slack)
    [] ev.op = "atai" -> L!ATAI_OK(ev.A, ev.r4, ev.b, ev.x)
    [] ev.op = "aati" -> L!AATI_OK(ev.A, ev.r4, ev.b, ev.x)
    [] ev.op = "sylv" -> L!SylvOK(ev.A, ev.B, ev.al, ev.C, ev.X)
    [] ev.op = "inner" ->
         LET nd == Len(ev.full)  d == L!Dim(nd, ev.axis)
             n == IF ev.x.re.sh[d] > ev.y.re.sh[d] THEN ev.x.re.sh[d] ELSE ev.y.re.sh[d]
             sh == [ev.full EXCEPT ![d] = 1] IN
         /\ ev.z.re.sh = sh
         /\ \A i \in 1..L!Prod(sh) :
              LET ix == L!Unravel(sh, i - 1) IN L!CBAt(ev.z, ix) = L!InnerAt(ev.x, ev.y, ix, d, n)
    [] ev.op = "dot" -> ev.z = L!DotSpec(ev.a, ev.b, L!Dim(Len(ev.b.sh), ev.axis))
    [] ev.op = "bcirc" -> ev.z = L!BlockCirc(ev.As)
    [] ev.op = "rrs" -> L!RrsOK(ev.ax, ev.b, ev.val)
    [] ev.op = "adj" -> ev.res = ev.truth /\ (ev.truth => ev.err <= -9) /\ (~ev.truth => ev.err >= -6)
    [] ev.op = "pca" ->
         \* B in 1/256, S in 1/16, U integers (times its column count if centred)
         LET B == ev.B
             G == L!MatMul(L!Tr(B), B)
             r == B.sh[2]
             SB == [B EXCEPT !.v = [q \in 1..Len(B.v) |-> B.v[q] * ev.S[((q - 1) % r) + 1]]]
             UU == L!MatMul(ev.U, L!Tr(ev.U)) IN
         /\ L!MNear(G, L!MScale(65536, Ident(r)), 700)
         /\ Len(ev.S) = r /\ NonInc(ev.S) /\ \A i \in 1..r : ev.S[i] >= -1
         /\ L!MNear(L!MatMul(SB, L!Tr(B)), L!MScale((65536 * 16) \div (ev.cn * ev.cn), UU), 131072)
         /\ ev.mean = ev.meanok
    [] ev.op = "kpsvd" ->
         LET n == Len(ev.S) IN
         /\ ev.B.sh[3] = n /\ ev.C.sh[3] = n
         /\ NonInc(ev.S) /\ \A i \in 1..n : ev.S[i] >= -1
         /\ \A i \in 1..n, j \in 1..n :
              /\ N!Near(SliceIP(ev.B, i, j), IF i = j THEN 65536 ELSE 0, 700)
              /\ N!Near(SliceIP(ev.C, i, j), IF i = j THEN 65536 ELSE 0, 700)
         /\ \A p \in 1..Len(ev.A.v) :
              N!Near(65536 * ev.A.v[p],
                     N!Sum([i \in 1..n |-> (L!Kron(Slice(ev.B, i), Slice(ev.C, i)).v[p] \div 64) * ev.S[i]]),
                     12000)
    [] ev.op = "nkp" ->
         \* K = B (x) C in 1/1024 computed from the returned factors, 1/32 each
         LET K == L!Kron(ev.B, ev.C)
             Rs == [p \in 1..Len(K.v) |-> 1024 * ev.A.v[p] - K.v[p]]
             rk(i, j) == Rs[(i - 1) * K.sh[2] + j]
             mb == ev.B.sh[1]  nb == ev.B.sh[2]  mc == ev.C.sh[1]  nc == ev.C.sh[2] IN
         /\ K.sh = ev.A.sh
         \* stationarity in each factor
         /\ \A p \in 1..mc, q \in 1..nc :
              N!Near(N!Sum([t \in 1..(mb * nb) |->
                LET i == (t - 1) \div nb  j == (t - 1) % nb IN
                (rk(i * mc + p, j * nc + q) \div 8) * L!M(ev.B, i + 1, j + 1)]), 0, 9000)
         /\ \A i \in 0..(mb - 1), j \in 0..(nb - 1) :
              N!Near(N!Sum([t \in 1..(mc * nc) |->
                LET p == (t - 1) \div nc + 1  q == ((t - 1) % nc) + 1 IN
                (rk(i * mc + p, j * nc + q) \div 8) * L!M(ev.C, p, q)]), 0, 9000)
         \* it carries the largest singular value
         /\ N!Near(N!ISqrt(N!SumSq(ev.B.v)) * N!ISqrt(N!SumSq(ev.C.v)), 4 * ev.s0, 300 + ev.s0 \div 2)
         /\ (ev.exact => \A p \in 1..Len(K.v) : N!Near(K.v[p], 1024 * ev.A.v[p], 300))
    [] OTHER -> FALSE
LinJudge(s, ev) ==
    CASE ev.e = "init" -> OK(0)
      [] ev.e = "op" ->
           Verdict(0, << <<ev.name, Opj(ev)>>, <<"input array altered", ev.pure>> >>)
      [] OTHER -> BAD(s, "unexpected exception")
=============================================================================
