--------------------------------- MODULE TGraph ---------------------------------
(* Real factor graphs while they are built, equipped and used (C20).              *)
EXTENDS TraceBase, EPRules
G == INSTANCE Graph WITH MaxN <- 0, MaxOps <- 0, Emits <- FALSE, g <- st, hist <- st
Start(run) == <<>>
Same10(a, b) == QLe(QAbs(QSub(a, b)), QMul("1/1000000000", QAdd("1/1000000000000", QAbs(b))))
VSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : IsQ(a[i]) /\ Same10(a[i], b[i])
MSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VSame(a[i], b[i])
Flat0(x, n) == MSame(x.P, ZeroM(n, n)) /\ VSame(x.h, ZeroV(n))
FreshNode(o, n) == /\ VSame(o.m, ZeroV(n)) /\ MSame(o.S, MScale(LargeNum, Eye(n)))
                   /\ Flat0(o.fwd, n) /\ Flat0(o.meas, n) /\ Flat0(o.back, n)
(* node i of the specification's graph s against what the real one shows *)
Linked(s, o) == Len(s) = Len(o) /\ \A i \in 1..Len(s) : o[i].index = s[i].idx /\ o[i].prev = s[i].prev /\ o[i].next = s[i].next
EstOk(s, o, run) == \A i \in 1..Len(s) : s[i].est # 0 => /\ o[i].p = run.ests[s[i].est].p /\ o[i].d = run.ests[s[i].est].d
(* called: for each update of the node, the estimator that was asked, through which of its projections ("" when none) *)
Asked(s, i, k) == IF k = "back" /\ i = Len(s) THEN <<>> ELSE
                  <<[e |-> s[i].est, f |-> IF k = "fwd" THEN "proj_trans" ELSE IF k = "meas" THEN "proj_meas" ELSE "proj_back"]>>
CallOk(s, o) == \A i \in 1..Len(s) : s[i].est # 0 /\ s[i].sys # 0 =>
   o[i].called.fwd = Asked(s, i, "fwd") /\ o[i].called.meas = Asked(s, i, "meas") /\ o[i].called.back = Asked(s, i, "back")
SysOk(s, o, run) == \A i \in 1..Len(s) : s[i].sys # 0 =>
   LET y == run.syss[s[i].sys] IN
   /\ VNear(o[i].tv, FEval(y.f, y.x0, y.args[i][1], y.args[i][2]), "1/10000000000")
   /\ VNear(o[i].hv, FEval(y.h, y.x0, "0", "0"), "1/10000000000")
   /\ o[i].y = y.ys[i]
PriorOk(s, o, run) == Len(s) > 0 /\ s[1].sys # 0 => LET y == run.syss[s[1].sys] IN o[1].prior = <<y.prior>>
View(s, e, run) ==
  <<Ok("C20.chain", e.exc = "" /\ Linked(s, e.nodes))>>
  \o (IF e.exc # "" \/ Len(s) # Len(e.nodes) THEN <<>> ELSE
      <<Ok("C20.dim", \A i \in 1..Len(s) : e.nodes[i].dim = run.n),
        Ok("C20.settings", EstOk(s, e.nodes, run)), Ok("C20.estimator", CallOk(s, e.nodes)),
        Ok("C20.system", SysOk(s, e.nodes, run)), Ok("C20.prior", PriorOk(s, e.nodes, run)),
        Ok("C20.same", e.same)>>
      \o (IF e.op = "touch" THEN <<Ok("C20.unshared", \A j \in 1..Len(s) : j # e.i => FreshNode(e.nodes[j], run.n)),
                                   Ok("C20.touched", ~FreshNode(e.nodes[e.i], run.n)),
                                   Ok("C20.others", \A j \in 1..Len(e.others) : FreshNode(e.others[j], run.n))>>
          ELSE <<Ok("C20.fresh", \A i \in 1..Len(s) : FreshNode(e.nodes[i], run.n))>>))
(* a node made by itself: factors in the order measurement, backward, forward *)
NodeOk(e, n) ==
  LET o == e.got w == e.want
      fac(x, i) == IF Len(w.fac) = 0 THEN Flat0(x, n) ELSE VSame(x.h, w.fac[i].h) /\ MSame(x.P, w.fac[i].P) IN
  /\ o.index = w.index /\ o.prev = w.prev /\ o.next = w.next /\ o.dim = n
  /\ fac(o.meas, 1) /\ fac(o.back, 2) /\ fac(o.fwd, 3)
  /\ IF Len(w.marg) = 0 THEN VSame(o.m, ZeroV(n)) /\ MSame(o.S, MScale(LargeNum, Eye(n)))
     ELSE VSame(o.m, w.marg[1].m) /\ MSame(o.S, w.marg[1].S)
StepG(s, e, run) ==
  LET t == CASE e.op = "build" -> G!Build(e.N, e.e, e.s)
             [] e.op = "est"   -> G!Equip(s, "est", e.k)
             [] e.op = "sys"   -> G!Equip(s, "sys", e.k)
             [] e.op = "touch" -> s
  IN  Out(t, View(t, e, run))
Step(s, e, run) == IF e.op = "node" THEN Out(s, <<Ok("C20.node", e.exc = "" /\ NodeOk(e, run.n))>>) ELSE StepG(s, e, run)
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
