---------------------------------- MODULE TDB ----------------------------------
(* C23: the store as the writing connection and a fresh second one see it, after *)
(* every call of a history.  Keys are sequences of strings, values are strings   *)
(* that stand for one value, type and shape each.                                *)
EXTENDS TraceBase, DBRules
Tabs(run) == {run.tabs[i] : i \in 1..Len(run.tabs)}
Start(run) == Store(Tabs(run))
Rows(x) == {x[i] : i \in 1..Len(x)}
Seen(run, e, k, t) == LET i == CHOOSE j \in 1..Len(run.tabs) : run.tabs[j] = t IN e[k][i]
After(s, e) ==
  CASE e.op = "mk"     -> Create(s, e.t)
    [] e.op = "dyn"    -> PutDyn(s, e.t, e.seed, [i \in 1..Len(e.vals) |-> QInt(i - 1)], e.vals)
    [] e.op = "exp"    -> PutExp(s, e.t, e.key, e.val)
    [] e.op = "commit" -> Commit(s)
    [] e.op = "crash"  -> Crash(s)
    [] e.op = "open"   -> Open(s)
Name(e) == IF e.op \in {"commit", "crash", "open"} THEN "C23.durable" ELSE "C23.isolated"
(* no row twice, and the rows are those of the store *)
Same(x, T) == Len(x.rows) = Cardinality(Rows(x.rows)) /\ Rows(x.rows) = T
Step(s, e, run) ==
  LET n == Force(After(s, e)) IN
  Out(n,
    <<Ok("C23.works", e.exc = "")>> \o
    (IF n.up /\ Has(e, "w") THEN <<Ok("C23.stored", \A t \in Tabs(run) : Seen(run, e, "w", t).made = n.mem[t].made /\ Same(Seen(run, e, "w", t), n.mem[t].rows))>> ELSE <<>>) \o
    <<Ok(Name(e), \A t \in Tabs(run) : (n.disk[t].made => Seen(run, e, "r", t).made) /\ Same(Seen(run, e, "r", t), n.disk[t].rows))>>)
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
