---------------------------------- MODULE TEP ----------------------------------
(* Recorded histories of node updates on real factor graphs (C11, C12, C13).      *)
(* A run has power p, damping d, dimension n; its first event shows the chain,    *)
(* every other one is an update of node i: what the projection was given, what    *)
(* it answered, the node afterwards and fingerprints of all nodes' beliefs.       *)
EXTENDS TraceBase, EPRules
Start(run) == [b |-> <<>>, init |-> <<>>, dig |-> <<>>, big |-> <<>>, cnt |-> 0, base |-> <<>>]
G(d)    == IF Has(d, "P") THEN Natural(d.P, d.h) ELSE Mom(d.m, d.S)
WfG(d, n) == IF Has(d, "P") THEN WfM(d.P, n, n) /\ WfV(d.h, n) ELSE WfV(d.m, n) /\ WfM(d.S, n, n)
B(x)    == Force([marg |-> G(x.marg), fwd |-> G(x.fwd), meas |-> G(x.meas), back |-> G(x.back)])
WfB(x, n) == \A k \in {"marg", "fwd", "meas", "back"} : WfG(x[k], n)
SizeN(g) == LET x == NatOf(g) IN QMax(MMax(x.P), VMax(x.h))
SizeB(b) == QMax(QMax(SizeN(b.marg), SizeN(b.fwd)), QMax(SizeN(b.meas), SizeN(b.back)))
Kinds == {"fwd", "meas", "back"}
Pos(k) == CASE k = "marg" -> 1 [] k = "fwd" -> 2 [] k = "meas" -> 3 [] k = "back" -> 4

(* a shown Gaussian against an expected one, in natural parameters *)
Tol(x, n, more) == QAdd(QMul("64", x.e), QAdd(more, QMul(QInt(4096 * n), QMul(Eps, QMax(MMax(x.P), VMax(x.h))))))
CloseN(shown, want, n, more) ==
  LET x == NatOf(want) y == NatOf(shown) t == Tol(x, n, more) IN
  y.ok /\ MNear(y.P, x.P, t) /\ VNear(y.h, x.h, t)
Judgeable(want, n, more) == LET x == NatOf(want) IN x.ok /\ QLe(Tol(x, n, more), QMul("1/100", QAdd("1/1000000", QMax(MMax(x.P), VMax(x.h)))))

JudgeStart(e, run) ==
  LET N == Len(e.nodes) n == run.n p == run.p
      bs == Force([i \in 1..N |-> B(e.nodes[i])])
  IN  Out([b |-> bs, init |-> Force([i \in 1..N |-> Div(bs[i].marg, Pow(Mul(Mul(bs[i].fwd, bs[i].meas), bs[i].back), Inv1(p)))]), dig |-> e.dig,
           big |-> Force([i \in 1..N |-> SizeB(bs[i])]), cnt |-> 0, base |-> e.dig], <<>>)

(* every node's fingerprints stay, but those listed *)
Frame(old, new, i, may) ==
  /\ Len(new) = Len(old)
  /\ \A j \in 1..Len(old) : \A q \in 1..4 : (j = i /\ q \in may) \/ new[j][q] = old[j][q]

JudgeUpd(s, e, run) ==
  LET n == run.n p == run.p d == run.d N == Len(s.b) i == e.i k == e.k
      b == s.b[i]
      last == k = "back" /\ i = N
      same == Frame(s.dig, e.dig, 0, {})
      keep == [s EXCEPT !.cnt = s.cnt + 1]
  IN
  IF ~WfB(e.post, n) THEN Out([keep EXCEPT !.dig = e.dig], <<Ok("C11.shape", FALSE), Ok("C13.shape", FALSE), Ok("C12.shape", FALSE)>>) ELSE
  LET post == B(e.post)
      bigr == IF e.ncalls > 0 /\ e.call.rexc = "" /\ WfG(e.call.res, n) THEN (LET x == NatOf(G(e.call.res)) IN QMax(MMax(x.P), VMax(x.h))) ELSE "0"
      big  == QMax(s.big[i], QMax(SizeB(post), bigr))
      s2   == [b |-> [s.b EXCEPT ![i] = post], init |-> s.init, dig |-> e.dig, big |-> [s.big EXCEPT ![i] = big], cnt |-> s.cnt + 1, base |-> s.base]
      ft   == QMul(QMul(QInt(256 * n * (s.cnt + 4)), Eps), QMul(QAdd("4", Inv1(p)), big))
      frame == << Ok("C12.frame", Frame(s.dig, e.dig, i, {1, Pos(k)})),
                  Ok("C12.factorised", CloseN(post.marg, Belief(post, s.init[i], p), n, ft)),
                  Ok("C13.proper", Proper(post.marg) # "notpd"),
                  Ok("C13.quiet", e.exc = "" \/ (e.ncalls > 0 /\ e.call.rexc # "" /\ e.call.rexc # "LinAlgError")) >>
  IN
  IF last THEN Out(s2, frame \o <<Ok("C11.lastback", same)>>) ELSE
  IF e.ncalls = 0 THEN Out(s2, frame \o <<Ok("C11.projects", FALSE)>>) ELSE
  LET cav  == IF k = "fwd" THEN (IF i = 1 THEN G(run.prior) ELSE FwdCavity(s.b[i-1], p))
              ELSE IF k = "meas" THEN MeasCavity(b) ELSE BackCavity(b)
      ncav == IF k = "back" THEN NextCavity(s.b[i+1], p) ELSE cav
      given ==
        << Ok("C11.cavity", WfG(e.call.cav, n) /\ CloseN(G(e.call.cav), cav, n, QMul(QInt(4096 * n), QMul(Eps, big)))),
           Ok("C11.function", e.call.fid = (IF k = "fwd" THEN run.tv[i] ELSE IF k = "meas" THEN run.hv ELSE run.tv[i+1])) >>
        \o (IF k = "meas" THEN <<Ok("C11.observation", e.call.y = run.ys[i])>> ELSE <<>>)
        \o (IF k = "back" THEN
              << Ok("C11.nextcavity", WfG(e.call.ncav, n) /\ CloseN(G(e.call.ncav), ncav, n, QMul(QInt(4096 * n), QMul(Eps, QMax(big, s.big[i+1]))))),
                 Ok("C11.nextmarginal", p # "1" \/ (WfG(e.call.next, n) /\ CloseN(G(e.call.next), s.b[i+1].marg, n, "0"))) >> ELSE <<>>)
  IN
  IF e.call.rexc # "" THEN Out(s2, frame \o given \o <<Ok(IF e.call.rexc = "LinAlgError" THEN "C13.refused" ELSE "C12.refused", same)>>) ELSE
  \* not finite: no proper Gaussian
  IF ~WfG(e.call.res, n) THEN Out(s2, frame \o given \o <<Ok("C13.refused", same)>>) ELSE
  LET g == G(e.call.res)
      v == Verdict(b, k, g, p, d)
      w == Apply(b, k, g, p, d)
      more == QMul(QInt(1024 * n), QMul(Eps, big))
      ok == CloseN(post.marg, w.marg, n, more) /\ CloseN(post[k], w[k], n, more)
      sure == NatOf(g).ok /\ Judgeable(w.marg, n, more) /\ Judgeable(w[k], n, more)
  IN  Out(s2, frame \o given \o
        (CASE v = "refuse" -> <<Ok("C13.refused", same)>>
           [] v = "commit" -> << OkIf("C11.applied", sure, ok),
                                 OkIf("C13.both", sure, ok \/ (e.dig[i][1] # s.dig[i][1] /\ e.dig[i][Pos(k)] # s.dig[i][Pos(k)])) >>
           [] v = "edge"   -> <<OkIf("C13.together", sure, same \/ ok)>>))
(* a copy of a node shows the node's beliefs and, being watched like the nodes, keeps them *)
JudgeCopy(s, e) ==
  LET M == Len(s.dig) IN
  IF e.exc # "" \/ Len(e.dig) # M + 1 THEN Out(s, <<Ok("C12.copy", FALSE)>>) ELSE
  Out([s EXCEPT !.dig = e.dig],
      <<Ok("C12.copy", e.aside /\ e.dig[M + 1] = s.dig[e.i] /\ \A j \in 1..M : e.dig[j] = s.dig[j])>>)
Step(s, e, run) == IF e.op = "copy" THEN JudgeCopy(s, e) ELSE IF e.op = "start" THEN JudgeStart(e, run) ELSE JudgeUpd(s, e, run)
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
