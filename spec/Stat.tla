---------------------------------- MODULE Stat ----------------------------------
(***************************************************************************)
(* Iteration statistics and their display.  A text line is a sequence of    *)
(* character codes.  A number is [c |-> class, s |-> sign, m |-> 8 digits,  *)
(* e |-> exponent of the first digit], class "num", "nan", "inf" or "none". *)
(***************************************************************************)
EXTENDS Num, TLC

(* --- the display layout ----------------------------------------------------- *)
Blank(n) == [i \in 1..n |-> 32]
PadTo(t, w) == t \o Blank(w - Len(t))
RECURSIVE HeaderFrom(_, _, _)
HeaderFrom(lb, wd, i) ==
    IF i > Len(lb) THEN <<>>
    ELSE PadTo(lb[i], wd[i]) \o (IF i < Len(lb) THEN Blank(2) ELSE <<>>)
         \o HeaderFrom(lb, wd, i + 1)
Header(lb, wd) == HeaderFrom(lb, wd, 1)
RECURSIVE ColEnd(_, _)
ColEnd(wd, i) == IF i = 1 THEN wd[1] ELSE ColEnd(wd, i - 1) + 2 + wd[i]
LineLen(wd) == ColEnd(wd, Len(wd))
Dashes(n) == [i \in 1..n |-> 45]

(* the widths that a header line with the given labels exhibits, or <<>> if   *)
(* it does not show these labels in this order, separated by blanks           *)
RECURSIVE SkipB(_, _)
SkipB(t, i) == IF i <= Len(t) /\ t[i] = 32 THEN SkipB(t, i + 1) ELSE i
RECURSIVE WidthsFrom(_, _, _, _, _)
WidthsFrom(t, lb, k, pos, acc) ==
    IF pos + Len(lb[k]) - 1 > Len(t) \/ SubSeq(t, pos, pos + Len(lb[k]) - 1) # lb[k] THEN <<>>
    ELSE LET e == SkipB(t, pos + Len(lb[k])) IN
         IF k = Len(lb) THEN IF e = Len(t) + 1 THEN Append(acc, e - pos) ELSE <<>>
         ELSE IF e - (pos + Len(lb[k])) < 2 THEN <<>>
         ELSE WidthsFrom(t, lb, k + 1, e, Append(acc, e - pos - 2))
Widths(t, lb) == WidthsFrom(t, lb, 1, 1, <<>>)

(* tokens of a row: <<first, last>> positions *)
RECURSIVE TokEnd(_, _)
TokEnd(t, i) == IF i <= Len(t) /\ t[i] # 32 THEN TokEnd(t, i + 1) ELSE i - 1
RECURSIVE TokensFrom(_, _, _)
TokensFrom(t, i, acc) ==
    LET b == SkipB(t, i) IN
    IF b > Len(t) THEN acc
    ELSE LET e == TokEnd(t, b) IN TokensFrom(t, e + 1, Append(acc, <<b, e>>))
Tokens(t) == TokensFrom(t, 1, <<>>)

(* --- printed numbers ----------------------------------------------------------- *)
IsDigit(x) == x >= 48 /\ x <= 57
RECURSIVE DigitsFrom(_, _, _)
DigitsFrom(t, i, acc) == IF i <= Len(t) /\ IsDigit(t[i]) THEN DigitsFrom(t, i + 1, Append(acc, t[i] - 48))
                         ELSE <<acc, i>>
RECURSIVE Val(_)
Val(ds) == IF ds = <<>> THEN 0 ELSE 10 * Val(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)]
RECURSIVE StripZ(_)
StripZ(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN StripZ(Tail(ds)) ELSE ds
(* [ok, s, ds: significant digits, e: exponent of the first one] *)
ParseNum(t) ==
    LET neg == t # <<>> /\ t[1] = 45
        a == DigitsFrom(t, IF neg THEN 2 ELSE 1, <<>>)
        hasdot == a[2] <= Len(t) /\ t[a[2]] = 46
        f == IF hasdot THEN DigitsFrom(t, a[2] + 1, <<>>) ELSE <<<<>>, a[2]>>
        hase == f[2] <= Len(t) /\ t[f[2]] = 101
        xneg == hase /\ f[2] + 1 <= Len(t) /\ t[f[2] + 1] = 45
        x == IF hase THEN DigitsFrom(t, f[2] + 2, <<>>) ELSE <<<<0>>, f[2]>>
        all == a[1] \o f[1]
        sig == StripZ(all)
        e == (IF xneg THEN -Val(x[1]) ELSE Val(x[1])) + Len(a[1]) - 1 - (Len(all) - Len(sig))
    IN [ok |-> a[1] # <<>> /\ x[2] = Len(t) + 1 /\ Len(sig) <= 8 /\ x[1] # <<>>,
        s |-> IF neg THEN -1 ELSE 1, ds |-> sig, e |-> e, int |-> ~hasdot /\ ~hase]
Pow10(n) == 10 ^ n
(* the printed text shows the number, correctly rounded to the printed digits *)
Shows(t, v) ==
    IF v.c = "nan" THEN t = <<110, 97, 110>>
    ELSE IF v.c = "inf" THEN t = (IF v.s < 0 THEN <<45>> ELSE <<>>) \o <<105, 110, 102>>
    ELSE /\ v.c = "num"
         /\ LET p == ParseNum(t)  k == Len(p.ds)  d == Val(p.ds) * Pow10(8 - k) IN
            /\ p.ok
            /\ IF v.m = 0 THEN Val(p.ds) = 0
               ELSE /\ p.s = v.s
                    /\ IF p.e = v.e THEN NAbs(d - v.m) <= (Pow10(8 - k) \div 2) + 1
                       ELSE IF p.e = v.e + 1 THEN NAbs(d - v.m \div 10) <= (Pow10(8 - k) \div 2) + 1
                       ELSE FALSE
(* a row of the display: one number per column, right aligned unless wider    *)
RowOK(t, wd, vals) ==
    LET tk == Tokens(t) IN
    /\ Len(tk) = Len(vals)
    /\ \A i \in 1..Len(tk) : Shows(SubSeq(t, tk[i][1], tk[i][2]), vals[i])
    /\ (wd # <<>> /\ \A i \in 1..Len(tk) : tk[i][2] - tk[i][1] + 1 <= wd[i]) =>
          \A i \in 1..Len(tk) : tk[i][2] = ColEnd(wd, i)

(* --- which fields are shown under which label ------------------------------------ *)
LabelField ==
    [Itn |-> "Iter", Fnc |-> "ObjFun", Cnstr |-> "Cnstr", DFid |-> "DFid", Reg |-> "Reg",
     Regl1 |-> "RegL1", l1 |-> "RegL1", Regl2 |-> "RegL2", Regl21 |-> "RegL21",
     Regl2grad |-> "RegGrad", RegTV |-> "RegTV", RegLat |-> "RegLat", RegSelf |-> "RegSelf",
     NrmNuc |-> "NrmNuc", Nrml1 |-> "NrmL1", FVal |-> "FVal", f |-> "FVal", g |-> "GVal",
     g0 |-> "G0Val", g1 |-> "G1Val",
     r |-> "PrimalRsdl", s |-> "DualRsdl", rho |-> "Rho",
     Rsdl |-> "Rsdl", F |-> "F_Btrack", Q |-> "Q_Btrack", It_Bt |-> "IterBTrack", L |-> "L",
     r_X |-> "XPrRsdl", s_X |-> "XDlRsdl", rho_X |-> "XRho",
     F_X |-> "X_F_Btrack", Q_X |-> "X_Q_Btrack", It_X |-> "X_ItBt", L_X |-> "X_L",
     r_D |-> "DPrRsdl", s_D |-> "DDlRsdl", rho_D |-> "DRho",
     F_D |-> "D_F_Btrack", Q_D |-> "D_Q_Btrack", It_D |-> "D_ItBt", L_D |-> "D_L",
     X_Rsdl |-> "XRsdl", X_L |-> "XL", D_Rsdl |-> "DRsdl", D_L |-> "DL",
     Xr |-> "PrimalRsdl", Xs |-> "DualRsdl", Xrho |-> "Rho", Dcnstr |-> "Cnstr",
     Ddlt |-> "DeltaD", Deta |-> "Eta"]
Never == {"Time", "EpsPrimal", "EpsDual", "XSlvRelRes", "XSlvCGIt", "GSIter", "GSRelRes",
          "X_Rsdl", "D_Rsdl"}
BtFields == {"F_Btrack", "Q_Btrack", "IterBTrack", "L"}
(* the fields that are displayed, in order *)
Shown(kind, fields, autorho, bt) ==
    SelectSeq(fields, LAMBDA x :
        /\ x \notin Never
        /\ x = "Rho" => (autorho \/ kind # "admm")
        /\ x \in BtFields => bt
        /\ kind = "online" => x \notin {"ObjFun", "DFid", "RegL1"})
IdxOf(fields, x) == CHOOSE i \in 1..Len(fields) : fields[i] = x
Has(fields, x) == \E i \in 1..Len(fields) : fields[i] = x

(* --- dictionary learning: where the entries of a record come from --------------- *)
XSrc == [XPrRsdl |-> "PrimalRsdl", XDlRsdl |-> "DualRsdl", XRho |-> "Rho",
         X_F_Btrack |-> "F_Btrack", X_Q_Btrack |-> "Q_Btrack", X_ItBt |-> "IterBTrack",
         X_L |-> "L", X_Rsdl |-> "Rsdl", XRsdl |-> "Rsdl", XL |-> "L"]
XObj == [ObjFun |-> "ObjFun", DFid |-> "DFid", RegL1 |-> "RegL1"]
DSrc == [DPrRsdl |-> "PrimalRsdl", DDlRsdl |-> "DualRsdl", DRho |-> "Rho",
         D_F_Btrack |-> "F_Btrack", D_Q_Btrack |-> "Q_Btrack", D_ItBt |-> "IterBTrack",
         D_L |-> "L", D_Rsdl |-> "Rsdl", DRsdl |-> "Rsdl", DL |-> "L", Cnstr |-> "Cnstr"]
=============================================================================
