--------------------------------- MODULE Img ---------------------------------
(* A collection of image files and the requests made to it.                      *)
EXTENDS Integers, Sequences, FiniteSets, Num

(* --- the collection: files have a directory, a name, and may hold an image ---- *)
Path(f) == IF f.dir = "" THEN f.name ELSE f.dir \o "/" \o f.name
Listed(files) == {Path(f) : f \in {files[i] : i \in 1..Len(files)} \cap
                               {g \in {files[i] : i \in 1..Len(files)} : g.image}}
Groups(files) == {files[i].dir : i \in {k \in 1..Len(files) : files[k].image}}
Members(files, g) == {Path(files[i]) : i \in {k \in 1..Len(files) : files[k].image /\ files[k].dir = g}}

(* --- settings: those of the call take precedence -------------------------------- *)
Pick(call, obj) == IF call # "none" THEN call ELSE obj
IntTypes == {"uint8", "int16", "int64"}
DType(call, obj, scaled) ==
    LET d == IF call # "none" THEN call ELSE IF obj # "none" THEN obj ELSE "uint8" IN
    IF scaled /\ d \in IntTypes THEN "float32" ELSE d

(* --- pixel operations; images are sequences of rows of pixels (sequences of      *)
(* channels), in hundredths                                                          *)
Map3(f(_), im) == [i \in 1..Len(im) |-> [j \in 1..Len(im[i]) |-> [k \in 1..Len(im[i][j]) |-> f(im[i][j][k])]]]
Crop(im, r0, r1, c0, c1) == [i \in 1..(r1 - r0) |-> [j \in 1..(c1 - c0) |-> im[r0 + i][c0 + j]]]
(* resampling of rows and columns, with the weights W of the rows and V of the     *)
(* columns in ten thousandths                                                        *)
Resample(im, W, V) ==
    LET a == [p \in 1..Len(W) |-> [j \in 1..Len(im[1]) |-> [k \in 1..Len(im[1][1]) |->
                RDiv(Sum([i \in 1..Len(im) |-> W[p][i] * im[i][j][k]]), 10000)]]] IN
    [p \in 1..Len(W) |-> [q \in 1..Len(V) |-> [k \in 1..Len(im[1][1]) |->
                RDiv(Sum([j \in 1..Len(im[1]) |-> V[q][j] * a[p][j][k]]), 10000)]]]
ToInt(im, top) == Map3(LAMBDA x : LET r == 100 * RDiv(x, 100) IN IF r < 0 /\ top = 25500 THEN 0 ELSE IF r > top THEN top ELSE r, im)
Gray(im) == [i \in 1..Len(im) |-> [j \in 1..Len(im[1]) |->
                IF Len(im[1][1]) = 3 THEN
                  <<RDiv(299 * im[i][j][1] + 587 * im[i][j][2] + 114 * im[i][j][3], 1000)>>
                ELSE im[i][j]]]
=============================================================================
