------------------------------ MODULE TraceBase ------------------------------
(* Walks recorded runs of the real code.  A trace module gives Start(run), the *)
(* specification's state at the start of a run, and Step(st, e, run), what the *)
(* specification says about event e in state st: the next state and a sequence *)
(* of judgements <<clause, "ok" | "fail" | "skip">>.  Verdicts are total: a    *)
(* trace is never rejected by deadlock; every failing clause is collected.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Q
Doc  == JsonDeserialize(IOEnv.TRACE)
Runs == Doc.runs
VARIABLES rI, lI, st, fails, judged, skipped
tvars == <<rI, lI, st, fails, judged, skipped>>

Ok(clause, b)            == <<clause, IF b THEN "ok" ELSE "fail">>
OkIf(clause, sound, b)   == <<clause, IF ~sound THEN "skip" ELSE IF b THEN "ok" ELSE "fail">>
Skip(clause)             == <<clause, "skip">>
Out(s, js)               == [st |-> s, js |-> js]

Bad(js, rr, ll) == LET b == SelectSeq(js, LAMBDA j : j[2] = "fail")
                   IN  [i \in 1..Len(b) |-> [run |-> rr, ev |-> ll, clause |-> b[i][1]]]
Count(js, what) == Len(SelectSeq(js, LAMBDA j : j[2] = what))

TraceInit(Start(_)) ==
  /\ rI = 1 /\ lI = 1 /\ st = Start(Runs[1]) /\ fails = <<>> /\ judged = 0 /\ skipped = 0
TraceNext(Step(_, _, _), Start(_)) ==
  \/ /\ rI <= Len(Runs) /\ lI <= Len(Runs[rI].ev)
     /\ \E o \in {Step(st, Runs[rI].ev[lI], Runs[rI])} :
          /\ st' = Force(o.st)
          /\ fails' = IF Len(fails) > 60 THEN fails ELSE Force(fails \o Bad(o.js, rI, lI))
          /\ skipped' = skipped + Count(o.js, "skip")
          /\ judged' = judged + Len(o.js) - Count(o.js, "skip")
     /\ lI' = lI + 1 /\ rI' = rI
  \/ /\ rI <= Len(Runs) /\ lI > Len(Runs[rI].ev)
     /\ rI' = rI + 1 /\ lI' = 1
     /\ st' = IF rI < Len(Runs) THEN Force(Start(Runs[rI + 1])) ELSE st
     /\ UNCHANGED <<fails, judged, skipped>>
  \/ /\ rI = Len(Runs) + 1
     /\ JsonSerialize(IOEnv.VERDICT, [fails |-> fails, judged |-> judged, skipped |-> skipped])
     /\ rI' = rI + 1 /\ UNCHANGED <<lI, st, fails, judged, skipped>>

(* Shape and finiteness of logged values: everything below is only evaluated on well-formed data. *)
WfV(v, n)    == Len(v) = n /\ \A i \in 1..n : IsQ(v[i])
WfM(A, n, m) == Len(A) = n /\ \A i \in 1..n : WfV(A[i], m)
VNear(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : QLe(QAbs(QSub(a[i], b[i])), t)
MNear(A, B, t) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VNear(A[i], B[i], t)
QNear(a, b, t) == QLe(QAbs(QSub(a, b)), t)
Has(e, k)    == k \in DOMAIN e
=============================================================================
