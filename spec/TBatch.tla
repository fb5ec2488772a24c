---------------------------------- MODULE TBatch ----------------------------------
(* C30: real runs of the batch experiment scripts, one after another on the same     *)
(* store, that end or are killed, against Batch.  The iterated smoother and the node *)
(* updates are stand-ins that return chosen beliefs and say what they were given.    *)
(* Events: begin (rows there are), unit (a smoother run or an EP sweep was made:     *)
(* the key fields its circumstances give, "?" for the seed and "#" for the quantity, *)
(* the data it was given, its beliefs; dur: the rows a second connection saw when it *)
(* started), order (the updates of a sweep), end (died or not; the rows).            *)
(* run.sims: simulated data [dim, seed, xs, ys] of every seed that occurs.           *)
EXTENDS TraceBase, Metrics
P == INSTANCE Sched WITH MaxN <- 0, pass <- st, n <- st, left <- st, done <- st, cut <- FALSE

Start(run) == [base |-> {}, us |-> <<>>, ending |-> ""]
Rows(x) == {x[i] : i \in 1..Len(x)}
SeedsOf(run, e) == {k \in 1..Len(run.sims) : run.sims[k].dim = e.dim /\ run.sims[k].ys = e.ys}
Scores(run, e, xs) ==
  IF ~e.judge THEN [i \in 1..run.r |-> [calm |-> FALSE]]
  ELSE IF run.r = 1 THEN <<Score(e.states, xs)>> ELSE Force([q \in 1..3 |-> ScoreOf(e.states, xs, Parts[q])])
Unit(run, e) ==
  LET ks == SeedsOf(run, e) IN
  IF ks = {} THEN [known |-> FALSE]
  ELSE LET k == CHOOSE k \in ks : TRUE IN
       [known |-> TRUE, sc |-> Scores(run, e, run.sims[k].xs),
        key |-> [q \in 1..run.r |-> [c \in 1..Len(e.key) |-> IF e.key[c] = "?" THEN run.sims[k].seed ELSE IF e.key[c] = "#" THEN run.quants[q] ELSE e.key[c]]]]
RowIs(u, q, row) == row.k = u.key[q] /\ IsQ(row.rm) /\ IsQ(row.nl) /\ (u.sc[q].calm => RmseIs(row.rm, u.sc[q], ScoreTol) /\ NllIs(row.nl, u.sc[q], ScoreTol))
(* rows: the ones there were, and those of the first c units whose key was new *)
Exactly(run, s, rows, c) ==
  LET new == {<<i, q>> : i \in 1..c, q \in 1..run.r} IN
  /\ \A i \in 1..c : s.us[i].known
  /\ s.base \subseteq Rows(rows)
  /\ LET own == {x \in new : ~\E b \in s.base : b.k = s.us[x[1]].key[x[2]]} IN
     /\ Len(rows) = Cardinality(s.base) + Cardinality(own)
     /\ \A x \in own : \E row \in Rows(rows) \ s.base : RowIs(s.us[x[1]], x[2], row)
Distinct(s) == \A i, j \in 1..Len(s.us) : i # j => ~s.us[i].known \/ ~s.us[j].known \/ s.us[i].key # s.us[j].key
Step(s, e, run) ==
  CASE e.op = "begin" -> Out([s EXCEPT !.base = Force(Rows(e.rows)), !.us = <<>>], <<>>)
    [] e.op = "dur"   -> Out(s, <<Ok("C30.durable", Exactly(run, s, e.rows, Len(s.us)))>>)
    [] e.op = "order" -> Out(s, <<Ok("C30.sweep", e.ups = P!Plan("sweep", e.N))>>)
    [] e.op = "unit"  -> LET u == Force(Unit(run, e)) IN
                         Out([s EXCEPT !.us = Append(s.us, u)], <<OkIf("C30.data", e.dataKnown, u.known), Ok("C30.model", e.made = e.want)>>)
    [] e.op = "end"   -> LET c == Len(s.us) IN
                         Out(s, <<Ok("C30.returns", e.exc = ""), OkIf("C30.unitsOnce", ~e.died, Distinct(s)),
                                  Ok("C30.rows", IF ~e.died THEN Exactly(run, s, e.rows, c)
                                                 ELSE Exactly(run, s, e.rows, c) \/ (c > 0 /\ Exactly(run, s, e.rows, c - 1)))>>)
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
