--------------------------------- MODULE Fig ---------------------------------
(* Figures: what is drawn for given data, and how the view reacts to events.    *)
(* Axis limits are measured in units of the reference range of the axis (the   *)
(* limits when the plot was drawn): the reference interval is 0 .. Ref.         *)
EXTENDS Integers, Sequences, FiniteSets, Num
CONSTANT Ref

(* zooming by a factor of two about position p; the view never leaves the       *)
(* reference interval                                                            *)
Scaled(iv, p, dir) ==
    IF dir = "in" THEN <<p - (p - iv[1]) \div 2, p + (iv[2] - p) \div 2>>
    ELSE <<p - 2 * (p - iv[1]), p + 2 * (iv[2] - p)>>
Confine(iv) ==
    LET len == iv[2] - iv[1] IN
    IF len >= Ref THEN <<0, Ref>>
    ELSE IF iv[1] < 0 THEN <<0, len>>
    ELSE IF iv[2] > Ref THEN <<Ref - len, Ref>>
    ELSE iv
Zoom(iv, p, dir) == Confine(Scaled(iv, p, dir))

(* size of the figure window (scaled by ten thousand) after a key press          *)
KeySize(sz, key) == IF key = "e" THEN RDiv(sz * 11, 10)
                    ELSE IF key = "c" THEN RDiv(sz * 10, 11) ELSE sz

(* values shown for an image (scaled by ten thousand); data: quarters for       *)
(* floating point images, integers otherwise                                     *)
Mn(v) == -MaxTo([i \in 1..Len(v) |-> -v[i]], Len(v))
Mx(v) == MaxTo(v, Len(v))
Clip1(x) == IF x < 0 THEN 0 ELSE IF x > 10000 THEN 10000 ELSE x
Shown(v, dt, rgb, fltscl) ==
    LET lo == Mn(v)  d == Mx(v) - lo
        unit(x) == IF d = 0 THEN 0 ELSE ((x - lo) * 10000) \div d
        fl == dt \in {"f4", "f8"} IN
    [i \in 1..Len(v) |->
        IF fl THEN LET x == IF fltscl THEN unit(v[i]) ELSE v[i] * 2500 IN
                   IF rgb THEN Clip1(x) ELSE x
        ELSE IF dt = "u2" THEN (v[i] * 10000) \div 65535
        ELSE IF dt = "i2" THEN unit(v[i])
        ELSE v[i] * 10000]

(* pixel under the pointer; positions in hundredths                              *)
PixCol(x) == (x + 50) \div 100
Inside(x, y, nr, nc) == PixCol(x) \in 0..(nc - 1) /\ PixCol(y) \in 0..(nr - 1)

(* corner points of the surface patches                                          *)
Patches(x, y, z) ==
    {{<<x[j + a], y[i + b], z[i + b][j + a]>> : a \in 0..1, b \in 0..1} :
        i \in 1..(Len(y) - 1), j \in 1..(Len(x) - 1)}
=============================================================================
