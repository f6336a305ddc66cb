------------------------------- MODULE MetTrace -------------------------------
(* Judges recorded calls of sporco.metric, sporco.interp and the image helpers *)
(* of sporco.signal and sporco.util.                                            *)
EXTENDS TraceDriver
M == INSTANCE Met

AllIn(v, S) == \A i \in 1..Len(v) : v[i] \in S
Opj(ev) ==
  CASE ev.op = "mse" -> ev.cnt = Len(ev.x) /\ M!NAbs(ev.cnt * ev.v - 1024 * M!SqErr(ev.x, ev.xi, ev.y, ev.yi)) <= ev.cnt + (ev.v \div 1024)
    [] ev.op = "mae" -> M!NAbs(ev.cnt * ev.v - 64 * M!AbsErr16(ev.x, ev.xi, ev.y, ev.yi)) <= 70 * ev.cnt
    [] ev.op = "snr" -> M!DbOK(ev.v, M!VarN(ev.x, ev.xi), ev.cnt * M!SqErr(ev.x, ev.xi, ev.y, ev.yi), ev.tol)
    [] ev.op = "psnr" ->
         LET rg == IF ev.rng = 0 THEN M!Range(ev.x) ELSE ev.rng IN
         M!DbOK(ev.v, ev.cnt * rg * rg, M!SqErr(ev.x, ev.xi, ev.y, ev.yi), ev.tol)
    [] ev.op = "isnr" -> M!DbOK(ev.v, M!SqErr(ev.x, ev.xi, ev.y, ev.yi), M!SqErr(ev.x, ev.xi, ev.z, ev.zi), ev.tol)
    [] ev.op = "bsnr" -> M!DbOK(ev.v, M!VarN(ev.x, ev.xi),
                                M!VarN(M!VSub(ev.y, ev.x), M!VSub(ev.yi, ev.xi)), ev.tol)
    [] ev.op = "pamse" ->
         LET E == [sh |-> ev.x.sh, v |-> M!VSub(ev.x.v, ev.y.v)]
             s == M!SumSq(M!Blur(E).v)  n == Len(E.v) IN
         IF s = 0 THEN ev.zero
         ELSE IF s < 4000 THEN TRUE
         (* mean square in 1/4096; rescaling by (255 / mx)^2 *)
         ELSE LET t == M!NormP(s, 0)  k == IF ev.rescale THEN M!NormP(65025, 0) ELSE <<16384, -14>>
                  p == M!NormP(t[1] * k[1], t[2] + k[2])
                  m2 == IF ev.rescale THEN ev.mx * ev.mx ELSE 1
                  g == <<ev.r[1], ev.r[2]>>
                  (* mean square in 1/4096 times n m2 = p *)
                  d == M!NormP(n * m2, 12) IN
              LET kk == p[2] - d[2] - g[2] IN
              kk \in 13..16 /\ M!NAbs(g[1] * d[1] - p[1] * (2 ^ kk)) <= 32768 * (400 + 9000000 \div s)
    [] ev.op = "gmsd" ->
         LET g1 == M!GradSq(M!Half4([ev.x EXCEPT !.v = M!VScale(ev.scl, @)]))
             g2 == M!GradSq(M!Half4([ev.y EXCEPT !.v = M!VScale(ev.scl, @)])) IN
         /\ ev.map => /\ ev.q.sh = g1.sh
                      /\ \A i \in 1..Len(g1.v) : M!QualOK(ev.q.v[i], g1.v[i], g2.v[i])
         /\ M!StdOK(ev.score, ev.q.v)
    [] ev.op = "lad" -> M!L1OK(ev.A, ev.b, ev.x, 50)
    [] ev.op = "lmd" -> M!LinfOK(ev.A, ev.b, ev.x, 20)
    [] ev.op = "points" ->
         LET p == M!Points(ev.n, ev.incz)  d == M!PointsDen(ev.n, ev.incz) IN
         Len(ev.p) = ev.n /\ \A i \in 1..ev.n : M!NAbs(ev.p[i] * d - p[i] * 1048576) <= d
    [] ev.op = "kernel" -> Len(ev.m) = Len(ev.v)
                           /\ \A i \in 1..Len(ev.m) : M!Near(ev.v[i], M!Lanczos(ev.m[i], ev.a), 8)
    [] ev.op = "filters" ->
         LET nd == Len(ev.ms)
             F(ix) == M!LanProd([d \in 1..nd |-> ev.ms[d][ix[nd + d] + 1]], ev.a, SubSeq(ix, 1, nd), 1)
             full == [d \in 1..nd |-> 2 * ev.a + 1] \o [d \in 1..nd |-> Len(ev.ms[d])]
             X == M!Build(full, F) IN
         /\ ev.h.sh = IF ev.coll THEN [d \in 1..nd |-> 2 * ev.a + 1] \o <<M!Prod([d \in 1..nd |-> Len(ev.ms[d])])>>
                      ELSE full
         /\ M!VNear(ev.h.v, X.v, 16)
    [] ev.op = "demosaic" ->
         LET A == ev.x  r == A.sh[1]  q == A.sh[2] IN
         /\ ev.d.sh = <<r, q, 3>>
         /\ \A i \in 0..(r - 1), j \in 0..(q - 1) :
              /\ M!Near(M!At(ev.d, <<i, j, 0>>), 64 * M!Bilin4(A, 1, i, j), 2)
              /\ M!Near(M!At(ev.d, <<i, j, 2>>), 64 * M!Bilin4(A, 0, i, j), 2)
              /\ \E g \in M!Green4(A, i, j) : M!Near(M!At(ev.d, <<i, j, 1>>), 64 * g, 2)
    [] ev.op = "gray" ->
         LET sh == M!Drop(ev.x.sh, 3) IN
         /\ ev.g.sh = sh
         /\ \A p \in 1..Len(ev.g.v) :
              LET ix == M!Unravel(sh, p - 1)
                  V(k) == M!At(ev.x, M!InsertAt(ix, 3, k)) IN
              M!NAbs(ev.g.v[p] - 299 * V(0) - 587 * V(1) - 114 * V(2)) <= ev.tol
    [] ev.op = "gauss" -> M!GaussOK(ev.g, ev.shp, ev.sd2)
    [] ev.op = "lcn" ->
         LET A == ev.x  r == A.sh[1]  q == A.sh[2]
             nk == IF Len(A.sh) = 3 THEN A.sh[3] ELSE 1
             Ix(i, j, k) == IF Len(A.sh) = 3 THEN <<i, j, k>> ELSE <<i, j>> IN
         /\ ev.scn.sh = A.sh /\ ev.smn.sh = A.sh /\ ev.snrm.sh = A.sh
         (* every image of an array is treated like an image on its own *)
         /\ \A k \in 1..Len(ev.one), i \in 0..(r - 1), j \in 0..(q - 1) :
              M!Near(M!At(ev.snrm, Ix(i, j, k - 1)), M!At(ev.one[k], <<i, j>>), 1)
         /\ \A p \in 1..Len(A.v) :
              M!Near(ev.scn.v[p] * ev.snrm.v[p] + 1024 * ev.smn.v[p], 262144 * A.v[p],
                     ev.snrm.v[p] + M!NAbs(ev.scn.v[p]) + 1200)
         /\ \A k \in 0..(nk - 1) :
              LET Mk == M!LMean(A, ev.half, k)
                  S(i, j) == M!At(ev.snrm, Ix(i, j, k))
                  all == [p \in 1..(r * q) |-> S((p - 1) \div q, (p - 1) % q)]
                  c == IF ev.c4 = 0 THEN M!SortI(all)[1] ELSE 16 * ev.c4 IN
              /\ \A i \in 0..(r - 1), j \in 0..(q - 1) :
                   /\ M!Near(M!At(ev.smn, Ix(i, j, k)), M!At(Mk, <<i, j>>), 24)
                   /\ S(i, j) >= c - 1
              /\ \A i \in ev.half..(r - 1 - ev.half), j \in ev.half..(q - 1 - ev.half) :
                   M!Near(S(i, j), M!NMax(c, M!LNorm(A, ev.half, k, Mk, i, j)), 14)
    [] ev.op = "noise" ->
         (* every pixel is unchanged or replaced, with the given frequency *)
         /\ ev.n = ev.low + ev.high + ev.same
         /\ 64 * M!NAbs(8 * (ev.low + ev.high) - ev.frc8 * ev.n) <= 64 * 8 * 3 * M!ISqrt(ev.n)
         /\ M!NAbs(ev.low - ev.high) <= 6 * M!ISqrt(ev.n)
         /\ ev.frc8 = 0 => ev.same = ev.n
         /\ ev.frc8 = 8 => ev.same = 0
    [] ev.op = "mask" ->
         /\ ev.n = ev.zeros + ev.ones
         /\ M!NAbs(8 * ev.zeros - ev.frc8 * ev.n) <= 8 * 3 * M!ISqrt(ev.n)
         /\ ev.frc8 = 0 => ev.zeros = 0
         /\ ev.frc8 = 8 => ev.ones = 0
         /\ ev.shape /\ ev.dtype
    [] ev.op = "tile" ->
         LET t == M!TileShape(ev.sz)
             D == ev.D  n4 == Len(D.sh) = 4
             srt == M!SortI(D.v)  mn == srt[1]  rg == srt[Len(srt)] - mn
             sh == IF n4 THEN <<t[1], t[2], D.sh[3]>> ELSE <<t[1], t[2]>> IN
         /\ ev.im.sh = sh
         /\ \A p \in 1..Len(ev.im.v) :
              LET ix == M!Unravel(sh, p - 1)
                  a == M!TileAt(ev.sz, ix[1], ix[2])
                  v == IF a[1] = 0 THEN rg
                       ELSE (IF n4 THEN M!At(D, <<a[2], a[3], ix[3], a[1] - 1>>)
                             ELSE M!At(D, <<a[2], a[3], a[1] - 1>>)) - mn IN
              M!NAbs(ev.im.v[p] * rg - 4096 * v) <= rg
    [] OTHER -> FALSE

MetJudge(st, ev) ==
  IF ev.e = "init" THEN OK(0)
  ELSE IF ev.e = "exc" THEN BAD(0, "unexpected exception")
  ELSE Verdict(0, <<<<"input modified", ev.pure>>, <<ev.op \o " differs from its definition", Opj(ev)>>>>)
=============================================================================
