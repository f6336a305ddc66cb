-------------------------------- MODULE FigTrace --------------------------------
(* Judges recorded figures and event histories. The state is the sequence of the *)
(* views of all axes (<<x interval, y interval>>) and the size of the figure.     *)
EXTENDS TraceDriver, FiniteSets
Ref == 1000000
F == INSTANCE Fig
Nr(a, b, t) == F!Near(a, b, t)
VNr(u, v, t) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Nr(u[i], v[i], t)

TextClauses(ev) ==
  <<<<"title and labels", ev.text = ev.xtext>>,
    <<"figure and axes returned", ev.same>>,
    <<"figure shown exactly if created", ev.shown = ev.created>>,
    <<"size and number of a created figure", ev.figok>>,
    <<"inputs not modified", ev.intact>>>>

PlotClauses(ev) ==
  <<<<"one curve for every column, with the given data", ev.curves = [j \in 1..Len(ev.y[1]) |->
        [i \in 1..Len(ev.y) |-> <<ev.x[i], ev.y[i][j]>>]]>>,
    <<"scales of the axes", ev.scale = <<IF ev.ptyp \in {"semilogx", "loglog"} THEN "log" ELSE "linear",
                                        IF ev.ptyp \in {"semilogy", "loglog"} THEN "log" ELSE "linear">>>>,
    <<"line width and marker size", \A i \in 1..Len(ev.lw) :
        ev.lw[i] = (IF ev.glw = 0 THEN 150 ELSE ev.glw * 100) /\ ev.ms[i] = (IF ev.gms = 0 THEN 600 ELSE ev.gms * 100)>>,
    <<"legend", ev.legend = ev.glegend>>>>

SetOf(s) == {s[i] : i \in 1..Len(s)}
MeshOK(ev) == \A i \in 1..Len(ev.z) : \A j \in 1..Len(ev.z[1]) :
                 ev.mesh[i][j] = <<ev.x[j], ev.y[i], ev.z[i][j]>>
ContourClauses(ev) ==
  <<<<"colour mesh of the data", Len(ev.mesh) = Len(ev.z) /\ Len(ev.mesh[1]) = Len(ev.z[1]) /\ MeshOK(ev)>>,
    <<"contour levels", ev.glev # <<>> => ev.lev = ev.glev>>,
    <<"contour labels exactly if a font size is given", ev.cfnt <= 0 => ev.nlab = 0>>,
    <<"contour label font size", ev.cfnt > 0 => \A i \in 1..Len(ev.lsz) : ev.lsz[i] = ev.cfnt * 100>>,
    <<"scales of the axes", ev.scale = <<IF ev.xlog THEN "log" ELSE "linear", IF ev.ylog THEN "log" ELSE "linear">>>>,
    <<"bounds of the colour map", ev.gclim # <<>> => ev.clim = ev.gclim>>,
    <<"colour bar", ev.naxes = 1>>>>

SurfClauses(ev) ==
  <<<<"patches of the surface", {SetOf(ev.faces[i]) : i \in 1..Len(ev.faces)} = F!Patches(ev.x, ev.y, ev.z)
        /\ Len(ev.faces) = (Len(ev.x) - 1) * (Len(ev.y) - 1)>>,
    <<"viewing angles", ev.view = ev.gview>>,
    <<"three dimensional axes in place of the given ones", ev.is3d /\ ev.place>>,
    <<"contours below the surface", IF ev.cntr
        THEN ev.ncont = 1 /\ LET lo == F!Mn(ev.flat)  hi == F!Mx(ev.flat) IN
             Nr(ev.zlo, lo * 10 - 2 * (hi - lo), 2)
        ELSE ev.ncont = 0>>>>

ImageClauses(ev) ==
  LET want == F!Shown(ev.v, ev.dt, ev.rgb, ev.fltscl) IN
  <<<<"pixels of the image", ev.dims = <<ev.nr, ev.nc>> /\ VNr(ev.shown_v, want, 2)>>,
    <<"colour range of the image", (~ev.rgb /\ ~ev.norm) => Nr(ev.clim[1], F!Mn(want), 2) /\ Nr(ev.clim[2], F!Mx(want), 2)>>,
    <<"given normalisation", ev.norm => ev.normsame>>,
    <<"colour map", ~ev.rgb => ev.cmap = ev.gcmap>>,
    <<"interpolation", ev.intrp = "nearest">>,
    <<"colour bar", ev.naxes = (IF ev.cbar = "no" THEN 0 ELSE 1)>>>>

CoordClauses(ev) ==
  <<<<"pixel values are displayed when the pointer is over the image",
      IF F!Inside(ev.x, ev.y, ev.nr, ev.nc)
      THEN ev.nums = <<ev.x, ev.y>> \o ev.pix[F!PixCol(ev.y) + 1][F!PixCol(ev.x) + 1]
      ELSE ev.nums = <<ev.x, ev.y>>>>>>

ViewOK(old, new, ev, a) ==
  \A d \in 1..2 :
    IF ev.log[a][d] THEN new[d][1] >= -3 /\ new[d][2] <= Ref + 3 /\ new[d][1] < new[d][2]
    ELSE LET w == F!Zoom(old[d], ev.pos[d], ev.dir) IN Nr(new[d][1], w[1], 4) /\ Nr(new[d][2], w[2], 4)
ScrollClauses(st, ev) ==
  <<<<"zoom only the axes under the pointer", \A a \in 1..Len(ev.views) : (a # ev.ax \/ ~ev.zoomable[a]) =>
        ev.views[a] = st.views[a]>>,
    <<"zoom by a factor of two about the pointer within the original limits",
      (ev.ax > 0 /\ ev.zoomable[ev.ax]) => ViewOK(st.views[ev.ax], ev.views[ev.ax], ev, ev.ax)>>,
    <<"scrolling does not alter the figure", ev.open /\ ev.size = st.size>>>>
KeyClauses(st, ev) ==
  <<<<"keys e and c change the size of the figure", ev.open =>
        \A i \in 1..2 : Nr(ev.size[i], F!KeySize(st.size[i], ev.key), 2)>>,
    <<"key q closes the figure", ev.open = (ev.key # "q")>>,
    <<"keys do not alter the view", ev.open => ev.views = st.views>>>>

FigJudge(st, ev) ==
  IF ev.e = "init" THEN OK([views |-> <<>>, size |-> <<>>])
  ELSE IF ev.e = "exc" THEN BAD(st, "unexpected exception")
  ELSE IF ev.e = "start" THEN OK([views |-> ev.views, size |-> ev.size])
  ELSE IF ev.e = "scroll" THEN Verdict([views |-> ev.views, size |-> ev.size], ScrollClauses(st, ev))
  ELSE IF ev.e = "key" THEN Verdict([views |-> ev.views, size |-> ev.size], KeyClauses(st, ev))
  ELSE Verdict(st, CASE ev.e = "plot" -> TextClauses(ev) \o PlotClauses(ev)
                     [] ev.e = "contour" -> TextClauses(ev) \o ContourClauses(ev)
                     [] ev.e = "surf" -> TextClauses(ev) \o SurfClauses(ev)
                     [] ev.e = "imview" -> TextClauses(ev) \o ImageClauses(ev)
                     [] ev.e = "coord" -> CoordClauses(ev)
                     [] ev.e = "reject" -> <<<<"invalid arguments are rejected", ev.rejected>>>>
                     [] ev.e = "closed" -> <<<<"close removes the figure and only it", ev.ok>>>>
                     [] OTHER -> <<<<"unknown event", FALSE>>>>)
=============================================================================
