--------------------------------- MODULE MetMC ---------------------------------
(***************************************************************************)
(* Design level theorems about the definitions of Met, checked for all      *)
(* small inputs.                                                            *)
(***************************************************************************)
EXTENDS Met, FiniteSets
CONSTANT R
VARIABLES a, b, x
vars == <<a, b, x>>
V == -R..R
Init == /\ a \in [1..3 -> V]
        /\ b \in [1..3 -> V]
        /\ b[1] <= b[2] \* symmetry
        /\ x \in V
Spec == Init /\ [][UNCHANGED vars]_vars

(* ratio comparison: reflexive, scale invariant, discriminates 1 % *)
Ratio ==
  LET n == SumSq(a) + 1  m == SumSq(b) + 1  r == NormP((NormP(n, 0)[1] * 32768) \div NormP(m, 0)[1],
             NormP(n, 0)[2] - NormP(m, 0)[2] - 15) IN
  /\ RatioOK(r, n, m, 4) /\ RatioOK(r, 7 * n, 7 * m, 4)
  /\ ~RatioOK(r, 101 * n, 100 * m, 8) /\ ~RatioOK(r, 2 * n, m, 8)
(* the blur preserves constants and the mean of absolute symmetric images *)
Blur2 == LET A == [sh |-> <<2, 3>>, v |-> <<x, x, x, x, x, x>>] IN
         \A i \in 1..6 : Near(Blur(A).v[i], 64 * x, 1)
Blur1 == LET A == [sh |-> <<1, 3>>, v |-> a] IN
         Near(Sum(Blur(A).v), 64 * Sum(a), 4)
(* vertex theorem: no point of a fine grid beats the best candidate point *)
Rows == [i \in 1..3 |-> <<a[i]>>]
MinOver(C, F(_)) == CHOOSE v \in {F(c) : c \in C} : \A w \in {F(c) : c \in C} : v <= w
Regr ==
  (\E i \in 1..3 : a[i] # 0) =>
   LET O1(c) == (2520 * Sum(ResAt(Rows, b, c[1], c[2]))) \div NAbs(c[2])
       Oi(c) == (2520 * MaxOf(ResAt(Rows, b, c[1], c[2]))) \div NAbs(c[2])
       C1 == {c \in L1Cand(Rows, b) : c[2] # 0}
       Ci == {c \in LinfCand(Rows, b) : c[2] # 0}
       G == {<<<<p>>, 12>> : p \in (-30)..30} IN
   /\ \A g \in G : O1(g) >= MinOver(C1, O1) /\ Oi(g) >= MinOver(Ci, Oi)
Rows2 == << <<a[1], a[2]>>, <<a[3], 1>>, <<1, x>> >>
Regr2 ==
  (\E i, j \in 1..3 : Sub2(Rows2, b, i, j)[2] # 0) =>
   LET Oi(c) == (2520 * MaxOf(ResAt(Rows2, b, c[1], c[2]))) \div NAbs(c[2])
       O1(c) == (2520 * Sum(ResAt(Rows2, b, c[1], c[2]))) \div NAbs(c[2])
       Ci == {c \in LinfCand(Rows2, b) : c[2] # 0}
       C1 == {c \in L1Cand(Rows2, b) : c[2] # 0}
       G == {<<<<p, q>>, 2>> : p \in (-4)..4, q \in (-4)..4} IN
   \A g \in G : Oi(g) >= MinOver(Ci, Oi) /\ O1(g) >= MinOver(C1, O1)
(* interpolation points: distinct, increasing, within (-1/2, 1/2], zero iff asked *)
Points2 == \A n \in 1..9, z \in BOOLEAN :
  LET p == Points(n, z)  d == PointsDen(n, z) IN
  /\ \A i \in 1..(n - 1) : p[i] < p[i + 1]
  /\ \A i \in 1..n : 2 * p[i] <= d /\ 2 * p[i] >= -d
  /\ (\E i \in 1..n : p[i] = 0) = z
(* the kernel is even, interpolates (0 at the other integers) and bounded *)
Kernel == \A m \in 0..36, k \in 1..3 :
  /\ Lanczos(m, k) = Lanczos(-m, k) /\ Lanczos(m, k) <= 4096
  /\ (m % 12 = 0 /\ m > 0) => Lanczos(m, k) = 0
(* demosaicing reproduces constants and the samples *)
Img == [sh |-> <<4, 4>>, v |-> [i \in 1..16 |-> a[(i % 3) + 1] + b[(i \div 6) + 1]]]
Mosaic ==
  /\ \A i \in 0..3, j \in 0..3 :
       /\ (i % 2 = 1 /\ j % 2 = 1) => Bilin4(Img, 1, i, j) = 4 * At(Img, <<i, j>>)
       /\ (i % 2 = 0 /\ j % 2 = 0) => Bilin4(Img, 0, i, j) = 4 * At(Img, <<i, j>>)
       /\ LET K == [Img EXCEPT !.v = [q \in 1..16 |-> x]] IN
          Bilin4(K, 0, i, j) = 4 * x /\ Bilin4(K, 1, i, j) = 4 * x /\ Green4(K, i, j) = {4 * x}
(* every atom pixel is shown exactly once *)
TSz == [i \in 1..(3 + NAbs(x)) |-> <<1 + NAbs(a[(i % 3) + 1]), 1 + NAbs(b[(i % 3) + 1])>>]
Tile ==
  LET t == TileShape(TSz)
      hits == {<<i, j>> \in (0..(t[1] - 1)) \X (0..(t[2] - 1)) : TileAt(TSz, i, j)[1] # 0} IN
  Cardinality(hits) = Sum([i \in 1..Len(TSz) |-> TSz[i][1] * TSz[i][2]])
  /\ \A k \in 1..Len(TSz) : \E h \in hits : TileAt(TSz, h[1], h[2]) = <<k, 0, 0>>
=============================================================================
