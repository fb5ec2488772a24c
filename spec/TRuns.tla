---------------------------------- MODULE TRuns ----------------------------------
(* C24 (and the logging of C27): real runs of ep_iterations, that end or are killed, *)
(* against Runs.  Events: an update about to start, a sweep's last update made (with *)
(* the marginals), a statement or a commit about to be executed, the end; "dur" is   *)
(* what a second connection sees at that moment.                                     *)
EXTENDS TraceBase, Metrics
P == INSTANCE Sched WITH MaxN <- 0, pass <- st, n <- st, left <- st, done <- st, cut <- FALSE

Start(run) == [k |-> 0, j |-> 0, plan |-> P!Plan("sweep", run.N), sc |-> <<>>, log |-> FALSE]
Rows(x) == {x[i] : i \in 1..Len(x)}
(* keys and scores of the rows of sweep k *)
KeyOf(run, k, q) == [c \in 1..Len(run.key) |-> IF c = run.iterAt THEN QAdd(run.iter0, QInt(k)) ELSE IF c = run.quantAt THEN run.quants[q] ELSE run.key[c]]
Own(run, c) == IF ~run.truth THEN {} ELSE {<<k, q>> : k \in 1..c, q \in 1..run.r}
Keys(run, c) == {KeyOf(run, x[1], x[2]) : x \in Own(run, c)}
RowOk(run, s, row, x) == row.k = KeyOf(run, x[1], x[2]) /\ (LET sc == s.sc[x[1]][x[2]] IN ~sc.calm \/ (IsQ(row.rm) /\ IsQ(row.nl) /\ RmseIs(row.rm, sc, ScoreTol) /\ NllIs(row.nl, sc, ScoreTol)))
(* the table holds what it held before, and the rows of the first c sweeps *)
Exactly(run, s, dur, c) ==
  LET base == {row \in Rows(run.base) : row.k \notin Keys(run, c)}
      own  == Rows(dur) \ base
  IN /\ Len(dur) = Cardinality(base) + Cardinality(Own(run, c))
     /\ base \subseteq Rows(dur)
     /\ \A x \in Own(run, c) : \E row \in own : RowOk(run, s, row, x)
Durable(run, s, e, cs) == <<Ok(run.tag \o "durable", \E c \in cs : c >= 0 /\ Exactly(run, s, e.dur, c))>>
Scores(run, marg) == IF run.r = 1 THEN <<Score(marg, run.xs)>> ELSE Force([q \in 1..3 |-> ScoreOf(marg, run.xs, Parts[q])])
Cs(s) == IF s.log THEN {s.k - 1, s.k} ELSE {s.k}
Step(s, e, run) ==
  CASE e.op = "upd" ->
         IF s.k >= run.iters \/ s.j >= Len(s.plan) THEN Out(s, <<Ok(run.tag \o "sweeps", FALSE)>>)
         ELSE Out([s EXCEPT !.j = s.j + 1, !.log = FALSE], <<Ok(run.tag \o "order", s.plan[s.j + 1] = <<e.i, e.k>>)>> \o Durable(run, s, e, {s.k}))
    [] e.op = "swept" -> Out([s EXCEPT !.k = s.k + 1, !.j = 0, !.log = TRUE, !.sc = Append(s.sc, Force(IF run.truth THEN Scores(run, e.marg) ELSE <<>>))],
                             <<Ok(run.tag \o "order", s.j = Len(s.plan))>>)
    [] e.op = "stmt"  -> Out(s, Durable(run, s, e, Cs(s)))
    [] e.op = "committed" -> Out([s EXCEPT !.log = FALSE], Durable(run, s, e, {s.k}))
    [] e.op = "died"  -> Out(s, Durable(run, s, e, IF s.j > 0 THEN {s.k} ELSE Cs(s)))
    [] e.op = "ret"   -> Out(s, <<Ok(run.tag \o "works", e.exc = ""), Ok(run.tag \o "sweeps", s.k = run.iters /\ s.j = 0)>> \o Durable(run, s, e, {s.k}))
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
