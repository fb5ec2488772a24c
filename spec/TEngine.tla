-------------------------------- MODULE TEngine --------------------------------
(* C29: passes over real chains against the engine, from fresh beliefs on.  The  *)
(* state holds a calm and a shaken run; when they have parted too far the engine *)
(* goes on from the beliefs the code shows.                                      *)
EXTENDS TraceBase, EPEngine
G(d)    == Natural(d.P, d.h)
WfG(d, n) == WfM(d.P, n, n) /\ WfV(d.h, n)
Fields  == <<"marg", "fwd", "meas", "back">>
WfB(x, n) == \A k \in 1..4 : WfG(x[Fields[k]], n)
Shown(e) == Force([i \in 1..Len(e.nodes) |-> [marg |-> G(e.nodes[i].marg), fwd |-> G(e.nodes[i].fwd), meas |-> G(e.nodes[i].meas), back |-> G(e.nodes[i].back)]])
Start(run) == LET f == Fresh(run) IN [a |-> f, b |-> f]

JudgeNode(s, e, i, n) ==
  LET x == s.a[i] y == s.b[i]
      mx == MomOf(x.marg) my == MomOf(y.marg) nx == NatOf(x.marg)
      good == mx.ok /\ my.ok /\ DiagPos(mx.S) /\ DiagPos(nx.P)
  IN  IF ~good THEN <<Skip("C29.marginal")>> ELSE
      LET d2 == Dist2(mx, my)
          ms == MomOf(G(e.nodes[i].marg))
          fac(k) == LET f2 == DistF2(x[k], y[k], nx) IN
                    OkIf("C29." \o k, Sound2(f2), QLe(DistF2(x[k], G(e.nodes[i][k]), nx), Allow2(f2)))
      IN  << OkIf("C29.marginal", Sound2(d2) /\ ms.ok, QLe(Dist2(mx, ms), Allow2(d2))), fac("fwd"), fac("meas"), fac("back") >>
RECURSIVE JudgeNodes(_, _, _, _)
JudgeNodes(s, e, i, n) == IF i > Len(e.nodes) THEN <<>> ELSE JudgeNode(s, e, i, n) \o JudgeNodes(s, e, i + 1, n)

Upd(run, bs, e, shake) ==
  IF bs = <<>> THEN bs ELSE
  IF e.what = "node" THEN Force(EngineStep(run, bs, e.i, e.k, shake)) ELSE Pass(run, bs, e.what, shake)
Step(s, e, run) ==
  LET n == Len(run.prior.m) N == Len(run.ys)
      wf == e.exc = "" /\ Len(e.nodes) = N /\ \A i \in 1..N : WfB(e.nodes[i], n)
  IN
  IF e.exc # "" THEN Out(s, <<OkIf("C29.runs", e.exc # "LinAlgWarning", FALSE)>>) ELSE
  IF ~wf THEN Out([a |-> <<>>, b |-> <<>>], <<Skip("C29.finite")>>) ELSE
  LET a2 == Upd(run, s.a, e, "0") b2 == Upd(run, s.b, e, ShakeBy) sh == Shown(e) IN
  IF a2 = <<>> \/ b2 = <<>> THEN Out([a |-> sh, b |-> sh], <<Skip("C29.edge")>>) ELSE
  LET js == JudgeNodes([a |-> a2, b |-> b2], e, 1, n)
      lost == \E k \in 1..Len(js) : js[k][2] = "skip"
      s2 == IF lost THEN [a |-> sh, b |-> sh] ELSE [a |-> a2, b |-> b2]
  IN  Out(s2, js)
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
