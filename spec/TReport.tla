--------------------------------- MODULE TReport ---------------------------------
(* C31: what Experiments/DisplayResults.py prints about prepared result stores,    *)
(* against Report.  An event is one section: its lines as printed and the settings *)
(* (hid) that the section leaves unnamed, one of which must explain all its lines. *)
EXTENDS TraceBase, Report
Start(run) == <<>>
Explains(rows, e, hid) ==
  \A i \in 1..Len(e.lines) :
    LET l == e.lines[i] crit == Criteria(e.sec, l.lab, hid)
    IN (Has(l, "rm") => LineIs(rows, crit, "RMSE", l.rm)) /\ (Has(l, "nl") => LineIs(rows, crit, "NLL", l.nl))
Labs(e) == [i \in 1..Len(e.lines) |-> e.lines[i].lab]
JudgeSection(e, run) ==
  <<Ok("C31.works", e.exc = ""),
    Ok("C31.complete", e.exc # "" \/ (Len(e.lines) > 0 /\ \A i \in 1..Len(e.need) : \E j \in 1..Len(e.lines) : Has(e.lines[j], e.need[i].what) /\ (e.need[i].power = "any" \/ e.lines[j].lab.power = e.need[i].power))),
    Ok("C31.values", Len(e.lines) = 0 \/ \E h \in 1..Len(e.hid) : Explains(run.tables[e.sec], e, e.hid[h]))>>
(* remove_outliers: what is left of xs, and which positions it says it removed *)
Kept(xs, out) == LET idx == SelectSeq(Force([i \in 1..Len(xs) |-> i]), LAMBDA i : ~out[i]) IN Force([i \in 1..Len(idx) |-> xs[idx[i]]])
RECURSIVE Put(_, _)
Put(x, s) == IF s = <<>> THEN <<x>> ELSE IF QLe(x, s[1]) THEN <<x>> \o s ELSE <<s[1]>> \o Put(x, Tail(s))
RECURSIVE Sorted(_)
Sorted(xs) == IF xs = <<>> THEN <<>> ELSE Put(xs[1], Sorted(Tail(xs)))
(* the quartile k/4 of n sorted values lies at position 1 + k (n-1) / 4 *)
Quart(s, k) == LET n == Len(s) p == k * (n - 1) i == p \div 4 f == p % 4
               IN IF f = 0 THEN s[i + 1] ELSE QAdd(s[i + 1], QMul(QDiv(QInt(f), "4"), QSub(s[i + 2], s[i + 1])))
JudgeOut(e) ==
  IF e.exc # "" THEN <<Ok("C31.outliers", FALSE)>> ELSE
  LET s == Force(Sorted(e.xs)) a == Quart(s, 1) b == Quart(s, 3) w == QMul("3/2", QSub(b, a))
      out == Force([i \in 1..Len(e.xs) |-> IF e.given THEN \E j \in 1..Len(e.idx) : e.idx[j] = i ELSE Outlying(e.xs[i], QSub(a, w), QAdd(b, w))])
  IN <<Ok("C31.outliers", e.kept = Kept(e.xs, out)),
       Ok("C31.removed", {e.removed[i] : i \in 1..Len(e.removed)} = {i \in 1..Len(e.xs) : out[i]})>>
Step(s, e, run) == Out(s, IF e.op = "section" THEN JudgeSection(e, run) ELSE JudgeOut(e))
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
