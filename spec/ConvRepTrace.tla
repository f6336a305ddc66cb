----------------------------- MODULE ConvRepTrace -----------------------------
(* Judges recorded layouts and dictionary projections.                        *)
EXTENDS TraceDriver
C == INSTANCE ConvRep
Lay(ev) == IF ev.cdu THEN
              LET dCd == ev.bdim - ev.dimN - 1 IN
              C!Layout(C!Take(ev.ssh, ev.dimN), C!Take(ev.ssh, ev.dimN), Len(ev.ssh) - ev.dimN, ev.ssh,
                       dCd, C!NChn(ev.bl), C!NFlt(ev.bl), ev.dk)
           ELSE C!CscLayout(ev.dsh, ev.ssh, ev.dk, ev.dimN)
(* element of external array E with axes (spatial, [chn], [sig], [flt])      *)
(* at internal index ix, for the given internal shape (a reshape that only    *)
(* inserts unit axes keeps the C order)                                       *)
SameVals(I, E, sh) == I.sh = sh /\ I.v = E.v
Fields == {"dimN", "dimC", "dimK", "dimCd", "C", "Cd", "K", "M", "Nv", "N", "axisN", "axisC",
           "axisK", "axisM", "shpD", "shpS", "shpX"}
Opj(ev) ==
  CASE ev.op = "layout" ->
         LET L == Lay(ev) IN
         IF L.err THEN ev.err ELSE ~ev.err /\ \A f \in Fields : ev.cri[f] = L[f]
    [] ev.op = "l1w" -> ev.shp = C!WShape(ev.wsh, Lay(ev))
    [] ev.op = "msk" -> ev.shp = C!MShape(ev.wsh, Lay(ev))
    [] ev.op = "cls" ->
         LET L == Lay(ev) IN
         /\ SameVals(ev.iS, ev.S, L.shpS) /\ SameVals(ev.iD, ev.D, L.shpD)
         /\ (ev.hasW => SameVals(ev.iW, ev.W, C!WShape(ev.W.sh, L)))
         /\ (ev.hasM => SameVals(ev.iM, ev.Mk, C!MShape(ev.Mk.sh, L)))
         /\ ev.xsh = L.shpX /\ ev.rsh = L.shpX
    [] ev.op = "size" -> /\ ev.nflt = C!NFlt(ev.bl) /\ ev.nchn = C!NChn(ev.bl)
                         /\ ev.mxsz = C!MaxSup(ev.bl, ev.dimN) /\ ev.ndim = ev.bdim
    [] ev.op = "bcrop" -> ev.z = C!Crop(ev.x, ev.bl, ev.dimN)
    [] ev.op = "zpad" -> ev.z = C!ZPadTo(ev.x, ev.nv)
    [] ev.op = "zeromean" ->
         /\ ev.z.sh = ev.x.sh
         /\ \A i \in 1..Len(ev.x.v) :
              LET ix == C!Unravel(ev.x.sh, i - 1) IN
              IF ~C!InSup(ev.bl, ix, ev.dimN) THEN ev.z.v[i] = 4096 * ev.x.v[i]
              ELSE LET n == C!Prod(C!Supp(ev.bl, ix[ev.dimN + 1], ix[ev.dimN + 3])) IN
                   C!Near(n * ev.z.v[i], 4096 * (n * ev.x.v[i] - C!SupSum(ev.x, ev.bl, ix, ev.dimN)), 2 * n)
    [] ev.op = "normalise" -> C!UnitOK(ev.yr, ev.yi, ev.x, ev.xi, ev.nn)
    [] ev.op = "pcn" ->
         LET nv == IF ev.crp THEN C!MaxSup(ev.bl, ev.dimN) ELSE ev.nv IN
         C!UnitOK(ev.yr, ev.yi, C!VecArr(ev.x, ev.bl, ev.dimN, ev.zm, nv),
                  C!VecArr(ev.xi, ev.bl, ev.dimN, ev.zm, nv), ev.dimN + ev.dimC)
    [] OTHER -> FALSE
ConvRepJudge(s, ev) ==
    CASE ev.e = "init" -> OK(0)
      [] ev.e = "op" ->
           Verdict(0, << <<ev.name, Opj(ev)>>, <<"input array altered", ev.pure>> >>)
      [] OTHER -> BAD(s, "unexpected exception")
=============================================================================
