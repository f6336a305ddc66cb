-------------------------------- MODULE ImgTrace --------------------------------
(* Judges recorded sessions with an image collection. The state holds the          *)
(* settings of the object and the files.                                             *)
EXTENDS TraceDriver, FiniteSets
I == INSTANCE Img
SetOf(s) == {s[i] : i \in 1..Len(s)}

ListClauses(ev) ==
  <<<<"images of the collection", Len(ev.images) = Cardinality(I!Listed(ev.files)) /\ SetOf(ev.images) = I!Listed(ev.files)>>,
    <<"groups of the collection", Len(ev.groups) = Cardinality(I!Groups(ev.files)) /\ SetOf(ev.groups) = I!Groups(ev.files)>>,
    <<"members of the groups", \A i \in 1..Len(ev.groups) :
        SetOf(ev.members[i]) = I!Members(ev.files, ev.groups[i]) /\ Len(ev.members[i]) = Cardinality(SetOf(ev.members[i]))>>>>

ImageClauses(st, ev) ==
  LET o == st
      scaled == I!Pick(ev.set.scaled, o.scaled) = "yes"
      gray == I!Pick(ev.set.gray, o.gray) = "yes"
      dt == I!DType(ev.set.dtype, o.dtype, scaled)
      zoom == IF ev.set.zoom # 0 THEN ev.set.zoom ELSE o.zoom
      isint == dt \in I!IntTypes
      cr == IF ev.crop = <<>> THEN ev.pix ELSE I!Crop(ev.pix, ev.crop[1], ev.crop[2], ev.crop[3], ev.crop[4])
      zm0 == IF zoom = 0 THEN cr ELSE I!Resample(cr, ev.W, ev.V)
      zm == IF isint /\ zoom # 0 THEN I!ToInt(zm0, IF dt = "uint8" THEN 25500 ELSE 2000000) ELSE zm0
      want == IF gray THEN I!Gray(zm) ELSE zm
      tol == IF zoom = 0 THEN 1 ELSE IF isint THEN 110 ELSE 15 IN
  <<<<"file found", ev.found>>,
    <<"data type of the image", (gray /\ isint) \/ ev.dtype = dt>>,
    <<"number of dimensions of the image", ev.ndim = (IF Len(want[1][1]) = 3 THEN 3 ELSE 2)>>,
    <<"shape of the image", Len(ev.out) = Len(want) /\ Len(ev.out[1]) = Len(want[1]) /\ Len(ev.out[1][1]) = Len(want[1][1])>>,
    <<"pixels of the image", \A i \in 1..Len(want) : \A j \in 1..Len(want[1]) : \A k \in 1..Len(want[1][1]) :
        I!Near(ev.out[i][j][k] * (IF scaled THEN 255 ELSE 1), want[i][j][k] * (IF scaled THEN 10000 ELSE 1),
               IF scaled THEN tol * 10000 ELSE tol)>>>>

ImgJudge(st, ev) ==
  IF ev.e = "init" THEN OK(0)
  ELSE IF ev.e = "exc" THEN BAD(st, "unexpected exception")
  ELSE IF ev.e = "list" THEN Verdict(ev.obj, ListClauses(ev))
  ELSE Verdict(st, CASE ev.e = "image" -> ImageClauses(st, ev)
                     [] ev.e = "missing" -> <<<<"inaccessible images are reported as such", ev.ioerror>>>>
                     [] ev.e = "dict" -> <<<<"example dictionaries have the sizes in their names", ev.shape = ev.named>>,
                                           <<"example dictionaries are independent copies", ev.fresh>>>>
                     [] OTHER -> <<<<"unknown event", FALSE>>>>)
=============================================================================
