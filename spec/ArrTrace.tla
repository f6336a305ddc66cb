------------------------------ MODULE ArrTrace -------------------------------
(* Judges recorded calls of the functions in sporco.array.                    *)
EXTENDS TraceDriver
A == INSTANCE Arr
N == INSTANCE Num
Eq(X, Y) == X.sh = Y.sh /\ X.v = Y.v
NAN == 2147483646
Opj(ev) ==
  CASE ev.op = "zpad" -> Eq(ev.out, A!ZPad(ev.x, ev.pd, ev.ax))
    [] ev.op = "zdivide" -> \* outputs in 1/1024
         /\ ev.out.sh = ev.x.sh
         /\ \A i \in 1..Len(ev.x.v) :
              IF ev.y.v[i] = 0 THEN ev.out.v[i] = 0
              ELSE N!Near(ev.out.v[i] * ev.y.v[i], 1024 * ev.x.v[i], 2)
    [] ev.op = "atleast" -> Eq(ev.out, A!AtLeastNd(ev.n, ev.x))
    [] ev.op = "split" ->
         /\ Len(ev.outs) = ev.x.sh[A!Dim(Len(ev.x.sh), ev.ax)]
         /\ \A j \in 1..Len(ev.outs) : Eq(ev.outs[j], A!SplitPart(ev.x, ev.ax, j - 1))
    [] ev.op = "roll" -> Eq(ev.out, A!RollingWindow(ev.x, ev.wsz, ev.wnm, ev.mode))
    [] ev.op = "sub" -> Eq(ev.out, A!Subsample(ev.x, ev.step, ev.pad, ev.mode))
    [] ev.op = "ext" -> Eq(ev.out, A!ExtractBlocks(ev.x, ev.blk, ev.stp))
    [] ev.op = "avg" ->   \* output in 1/1024; x: blocks
         /\ ev.out.sh = ev.isz
         /\ \A i \in 1..A!Prod(ev.isz) :
              LET q == A!Contrib(ev.x, ev.isz, ev.stp, A!Unravel(ev.isz, i - 1)) IN
              IF q = <<>> THEN ev.out.v[i] = NAN
              ELSE ev.out.v[i] # NAN /\ N!Near(ev.out.v[i] * Len(q), 1024 * N!Sum(q), Len(q) + 1)
    [] ev.op = "comb" ->
         /\ ev.out.sh = ev.isz
         /\ \A i \in 1..A!Prod(ev.isz) :
              LET q == A!Contrib(ev.x, ev.isz, ev.stp, A!Unravel(ev.isz, i - 1)) IN
              CASE ev.fn = "len" -> ev.out.v[i] = 1024 * Len(q)
                [] q = <<>> -> ev.out.v[i] = NAN
                [] ev.fn = "median" -> ev.out.v[i] = 512 * A!Median2(q)
                [] ev.fn = "max" -> ev.out.v[i] = 1024 * A!SortI(q)[Len(q)]
                [] OTHER -> N!Near(ev.out.v[i] * Len(q), 1024 * N!Sum(q), Len(q) + 1)
    [] ev.op = "round" ->   \* extract then average/combine reproduces covered pixels
         /\ ev.out.sh = ev.x.sh /\ ev.out2.sh = ev.x.sh
         /\ LET cnt == A!NumBlocks(ev.x.sh, ev.blk, ev.stp) IN
            \A i \in 1..Len(ev.x.v) :
              LET px == A!Unravel(ev.x.sh, i - 1)
                  cov == \A d \in 1..Len(ev.blk) :
                           \E q \in 0..(cnt[d] - 1) : px[d] >= q * ev.stp[d] /\ px[d] < q * ev.stp[d] + ev.blk[d]
              IN IF cov THEN N!Near(ev.out.v[i], 1024 * ev.x.v[i], 1) /\ N!Near(ev.out2.v[i], 1024 * ev.x.v[i], 1)
                 ELSE ev.out.v[i] = NAN /\ ev.out2.v[i] = NAN
    [] ev.op = "tpl" -> ev.rows = ev.back /\ ev.fields = ev.bfields /\ ev.name = ev.bname
                        /\ ev.cols = [j \in 1..Len(ev.fields) |-> [i \in 1..Len(ev.rows) |-> ev.rows[i][j]]]
                        /\ ev.single = ev.rows[1] /\ ev.empty
    [] ev.op = "promote" -> ev.up = (IF ev.dt = "float16" THEN "float32" ELSE ev.dt)
                            /\ ev.fdt = ev.dt /\ ev.seen = ev.up /\ ev.x = ev.out
    [] OTHER -> FALSE
ArrJudge(s, ev) ==
    CASE ev.e = "init" -> OK(0)
      [] ev.e = "op" ->
           Verdict(0, << <<ev.op, Opj(ev)>>, <<"input array altered", ev.pure>> >>)
      [] OTHER -> BAD(s, "unexpected exception")
=============================================================================
