--------------------------------- MODULE ImgMC ---------------------------------
(* Sanity of the image operations: the order of the steps matters where the        *)
(* documentation fixes it, and does not where it leaves it open.                     *)
EXTENDS Integers, Sequences, TLC
I == INSTANCE Img
CONSTANT N
VARIABLE im
Px == [1..3 -> {0, 100, 25500}]
Init == im \in [1..N -> [1..2 -> {<<0, 100, 25500>>, <<100, 100, 100>>, <<25500, 0, 0>>}]]
Next == UNCHANGED im
Spec == Init /\ [][Next]_im
Id(n) == [p \in 1..n |-> [i \in 1..n |-> IF p = i THEN 10000 ELSE 0]]
Rep(n) == [p \in 1..(2 * n) |-> [i \in 1..n |-> IF (p + 1) \div 2 = i THEN 10000 ELSE 0]]
(* unit factor: nothing changes; replication repeats pixels *)
Unit == I!Resample(im, Id(N), Id(2)) = im
Replicates == \A p \in 1..(2 * N), q \in 1..4 : I!Resample(im, Rep(N), Rep(2))[p][q] = im[(p + 1) \div 2][(q + 1) \div 2]
(* conversion to grey commutes with resampling, and is idempotent *)
GrayLinear == I!Gray(I!Resample(im, Rep(N), Rep(2))) = I!Resample(I!Gray(im), Rep(N), Rep(2))
GrayAgain == I!Gray(I!Gray(im)) = I!Gray(im)
CropFirst == \A r \in 1..N : I!Resample(I!Crop(im, r - 1, r, 0, 2), Rep(1), Rep(2)) = I!Crop(I!Resample(im, Rep(N), Rep(2)), 2 * r - 2, 2 * r, 0, 4)
=============================================================================
