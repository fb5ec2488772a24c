---------------------------------- MODULE TShow ----------------------------------
(* Scores of the turning target (C27) and what the plots show (C28).               *)
EXTENDS TraceBase, Metrics
Start(run) == <<>>
WfMom(g, n) == WfV(g.m, n) /\ WfM(g.S, n, n)

Cat3(F(_)) == F(1) \o F(2) \o F(3)
(* six numbers: squared-error and density score of position, velocity, turn rate *)
JudgeParts(e) ==
  IF e.exc # "" \/ ~WfV(e.v, 6) THEN <<Ok("C27.works", FALSE)>> ELSE
  LET sc == Force([q \in 1..3 |-> ScoreOf(e.gs, e.xs, Parts[q])]) name == <<"position", "velocity", "turn">> IN
  Cat3(LAMBDA q : <<OkIf("C27." \o name[q] \o ".rmse", sc[q].calm, RmseIs(e.v[2 * q - 1], sc[q], ScoreTol)),
                    OkIf("C27." \o name[q] \o ".nll", sc[q].calm, NllIs(e.v[2 * q], sc[q], ScoreTol))>>)

(* a drawn line: points <<x, y>>; a band: points <<x, low, high>>, by x *)
PTol == "1/1000000000"
PNear(a, b) == QNear(a, b, QMul(PTol, QAdd("1/1000", QAbs(b))))
IsLine(l, xs, ys) == Len(l) = Len(xs) /\ \A i \in 1..Len(l) : WfV(l[i], 2) /\ l[i][1] = xs[i] /\ PNear(l[i][2], ys[i])
IsBand(b, xs, lo, hi) == Len(b) = Len(xs) /\ \A i \in 1..Len(b) : WfV(b[i], 3) /\ b[i][1] = xs[i] /\ PNear(b[i][2], lo[i]) /\ PNear(b[i][3], hi[i])
Ticks(from, n) == Force([i \in 1..n |-> QInt(from + i - 1)])
Half(g)  == QMul("49/25", QSqrt(g.S[1][1]))
Low(gs)  == Force([i \in 1..Len(gs) |-> QSub(gs[i].m[1], Half(gs[i]))])
High(gs) == Force([i \in 1..Len(gs) |-> QAdd(gs[i].m[1], Half(gs[i]))])
Mid(gs)  == Force([i \in 1..Len(gs) |-> gs[i].m[1]])
JudgePlot(e) ==
  IF e.exc # "" THEN <<Ok("C28.works", FALSE)>> ELSE
  CASE e.what = "gaussian" ->
         LET n == Len(e.gs) IN <<Ok("C28.band", Len(e.bands) = 1 /\ IsBand(e.bands[1], Ticks(0, n), Low(e.gs), High(e.gs))), Ok("C28.unchanged", e.kept)>>
    [] e.what = "node" ->
         LET n == Len(e.gs) xs == Ticks(1, n) IN
         <<Ok("C28.band", Len(e.bands) = 1 /\ IsBand(e.bands[1], xs, Low(e.gs), High(e.gs))),
           Ok("C28.mean", Len(e.lines) >= 1 /\ IsLine(e.lines[1], xs, Mid(e.gs))),
           Ok("C28.truth", IF Len(e.truth) = 0 THEN Len(e.lines) = 1 ELSE Len(e.lines) = 2 /\ IsLine(e.lines[2], xs, e.truth)),
           Ok("C28.axis", e.axis), Ok("C28.unchanged", e.kept)>>
    [] e.what = "runs" ->
         LET R_ == Len(e.data) T == Len(e.data[1]) xs == Ticks(1, T)
             col(t) == Force([i \in 1..R_ |-> e.data[i][t]])
             mean == Force([t \in 1..T |-> QDiv(XSum(col(t)), QInt(R_))])
             std  == Force([t \in 1..T |-> QSqrt(QDiv(XSum(Force([i \in 1..R_ |-> QSq(QSub(e.data[i][t], mean[t]))])), QInt(R_)))])
         IN <<Ok("C28.mean", Len(e.lines) = 1 /\ IsLine(e.lines[1], xs, mean)),
              Ok("C28.spread", IF R_ = 1 THEN \A b \in 1..Len(e.bands) : IsBand(e.bands[b], xs, mean, mean)
                               ELSE Len(e.bands) = 1 /\ IsBand(e.bands[1], xs, Force([t \in 1..T |-> QSub(mean[t], std[t])]), Force([t \in 1..T |-> QAdd(mean[t], std[t])]))),
              Ok("C28.axis", e.axis), Ok("C28.unchanged", e.kept)>>
Step(s, e, run) == Out(s, IF e.op = "parts" THEN JudgeParts(e) ELSE JudgePlot(e))
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
