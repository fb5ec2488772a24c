--------------------------------- MODULE TSweep ---------------------------------
(* C25: real runs of full_sweep, one after another on the same database, that      *)
(* complete or are killed, with failing iterations, against Sweep; the values of   *)
(* the rows against the engine on the seed's data.                                 *)
(* A run has the problem (md, prior), data[k] = [seed, xs, ys, dyn] per seed, the  *)
(* configurations cfgs[c] = [key, s (index of the seed), tr, mr, p, d], r rows per *)
(* sweep; an event is one call of full_sweep.  Before each call the stored scores  *)
(* were overwritten, so that recomputed rows differ from kept ones.                *)
EXTENDS TraceBase, EPEngine, Metrics
Prob(run, c) == LET k == run.cfgs[c] dt == run.data[k.s] IN
  [md |-> run.md, prior |-> run.prior, tr |-> k.tr, mr |-> k.mr, p |-> k.p, d |-> k.d, ys |-> dt.ys,
   ts |-> Force([i \in 1..Len(dt.ys) |-> QMul(QInt(i - 1), run.dt)])]
AsMoms(bs) == Force([i \in 1..Len(bs) |-> MomOf(bs[i].marg)])
NoScore == [sure |-> FALSE]
ScoreOne(run, c, a, b) ==
  IF a = <<>> \/ b = <<>> THEN NoScore ELSE
  LET x == AsMoms(a) y == AsMoms(b) IN
  IF ~\A i \in 1..Len(x) : x[i].ok /\ y[i].ok /\ DiagPos(x[i].S) /\ Sound2(Dist2(x[i], y[i])) THEN NoScore ELSE
  LET xs == run.data[run.cfgs[c].s].xs
      sc == IF run.r = 1 THEN <<Score(x, xs)>> ELSE Force([q \in 1..3 |-> ScoreOf(x, xs, Parts[q])])
  IN  IF \A q \in 1..run.r : sc[q].calm THEN [sure |-> TRUE, sc |-> sc] ELSE NoScore
Want(run, c) ==
  IF run.cfgs[c].tr.k = "MCT" THEN [i \in 1..run.maxit |-> NoScore] ELSE
  LET e == Prob(run, c) f == Fresh(e)
      a == Sweeps(e, f, run.maxit, "0") b == Sweeps(e, f, run.maxit, ShakeBy)
  IN  Force([i \in 1..run.maxit |-> ScoreOne(run, c, a[i], b[i])])
Start(run) == IF run.cfgs = <<>> THEN <<>> ELSE Force([c \in 1..Len(run.cfgs) |-> Want(run, c)])

Rows(x) == {x[i] : i \in 1..Len(x)}
KeyOf(run, c, i, q) == [j \in 1..Len(run.cfgs[c].key) |->
    IF j = run.iterAt THEN QInt(i) ELSE IF j = run.quantAt THEN run.quants[q] ELSE run.cfgs[c].key[j]]
KeysOf(run, c, i) == {KeyOf(run, c, i, q) : q \in 1..run.r}
Held(rows, run, c, i) == \A k \in KeysOf(run, c, i) : \E x \in rows : x.k = k
At(rows, k) == CHOOSE x \in rows : x.k = k
(* iteration i of c was written in this call, with the right scores *)
Written(s, run, c, i, before, after) ==
  /\ Held(after, run, c, i)
  /\ \A q \in 1..run.r :
       LET k == KeyOf(run, c, i, q) x == At(after, k) IN
       /\ IsQ(x.rm) /\ IsQ(x.nl)
       /\ x \notin before
       /\ (s[c][i].sure => RmseIs(x.rm, s[c][i].sc[q], "1/10000") /\ NllIs(x.nl, s[c][i].sc[q], "1/10000"))
Same(run, c, i, before, after) == \A k \in KeysOf(run, c, i) : {x \in before : x.k = k} = {x \in after : x.k = k}
AllKeys(run) == UNION {KeysOf(run, c, i) : c \in 1..Len(run.cfgs), i \in 1..run.maxit}
Others(run, rows) == {x \in rows : x.k \notin AllKeys(run)}
Skips(run, e, before, c) == ~e.over /\ Held(before, run, c, e.ni)
Upto(e, c) == IF e.bad[1] = c THEN e.bad[2] - 1 ELSE e.ni
DynOk(run, e, after) == \A k \in 1..Len(run.data) :
  (\E c \in 1..Len(run.cfgs) : run.cfgs[c].s = k /\ \E i \in 1..run.maxit : Held(after, run, c, i))
  => LET d == SelectSeq(e.dyn, LAMBDA x : x.seed = run.data[k].seed) IN
     /\ Len(d) = Len(run.data[k].xs)
     /\ \A j \in 1..Len(d) : \E x \in Rows(d) : x.t = QInt(j - 1) /\ x.x = run.data[k].xs[j] /\ x.y = run.data[k].ys[j]

Complete(s, run, e, before, after) ==
  << Ok("C25.returns", e.exc = ""),
     Ok("C25.others", Others(run, before) = Others(run, after)),
     Ok("C25.once", Len(e.after) = Cardinality({x.k : x \in after})) >> \o
  [c \in 1..Len(run.cfgs) |->
     IF Skips(run, e, before, c)
     THEN Ok("C25.skipped", \A i \in 1..run.maxit : Same(run, c, i, before, after))
     ELSE Ok("C25.done", \A i \in 1..run.maxit : IF i <= Upto(e, c) THEN Written(s, run, c, i, before, after) ELSE Same(run, c, i, before, after))]
Killed(s, run, e, before, after) ==
  << Ok("C25.others", Others(run, before) = Others(run, after)),
     Ok("C25.once", Len(e.after) = Cardinality({x.k : x \in after})),
     Ok("C25.durable", \A j \in 1..Len(e.logged) : Written(s, run, e.logged[j][1], e.logged[j][2], before, after)) >> \o
  [c \in 1..Len(run.cfgs) |->
     IF Skips(run, e, before, c)
     THEN Ok("C25.skipped", \A i \in 1..run.maxit : Same(run, c, i, before, after))
     ELSE Ok("C25.partial", \E k \in 0..Upto(e, c) : \A i \in 1..run.maxit :
              IF i <= k THEN Written(s, run, c, i, before, after) ELSE Same(run, c, i, before, after))]
JudgeCli(e) == << OkIf("C25.options", e.called, e.got = e.want) >>
Step(s, e, run) ==
  IF e.op = "cli" THEN Out(s, JudgeCli(e)) ELSE
  LET before == Force(Rows(e.before)) after == Force(Rows(e.after)) IN
  Out(s, (IF e.died THEN Killed(s, run, e, before, after) ELSE Complete(s, run, e, before, after))
         \o <<Ok("C25.simulation", DynOk(run, e, after))>>)
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
