------------------------------- MODULE EPEngine -------------------------------
(* Damped power EP on a whole chain, from beliefs bs (a sequence of records of   *)
(* EPRules), as executable as the code.  A problem is                            *)
(*   e = [md |-> [f, h, Q, R], prior, tr, mr, p, d, ys, ts]                      *)
(* (ts[i]: the time of the transition into node i).  A result is a sequence of   *)
(* beliefs, or <<>> once rounding would decide what happens.  shake is 0, or the *)
(* relative disturbance given to every projection: the distance between a calm   *)
(* and a shaken run tells how far the rounding of doubles can carry.             *)
EXTENDS EPRules, Kalman
PP == INSTANCE Sched WITH MaxN <- 0, pass <- "", n <- 0, left <- <<>>, done <- <<>>, cut <- FALSE
Bare(g)  == LET x == NatOf(g) IN Natural(x.P, x.h)
BareB(b) == Force([marg |-> Bare(b.marg), fwd |-> Bare(b.fwd), meas |-> Bare(b.meas), back |-> Bare(b.back)])
Fresh(e) == Force([i \in 1..Len(e.ys) |-> BareB(FreshBeliefs(Len(e.prior.m)))])

(* the moments handed to a transform: "fail" when it needs a proper Gaussian and has none *)
Moments(tr, d, cav, t) ==
  LET M == MomOf(cav) IN
  IF ~M.ok THEN [k |-> "edge"] ELSE
  LET c == PDClass(M.S, PDTol) IN
  IF tr.k = "TT" \/ c = "pd" THEN [k |-> "ok", m |-> M.m, S |-> M.S, T |-> Force(Transform(tr, d, M.m, M.S, t, "0"))]
  ELSE [k |-> IF c = "notpd" THEN "fail" ELSE "edge"]

(* how an error of the transform's moments spreads through a gain K = X D^-1 *)
Spread(T, D, m, dv, NS) ==
  LET I == MInv(D) IN IF I = <<>> THEN "1000000000" ELSE
  LET K == MMul(T.cross, I) w == MVec(I, dv) E == IF NS = <<>> THEN I ELSE MMul(I, MSub(NS, D)) IN
  R(QMul(QInt(4 * Len(m)), QMul(QSq(QAdd("1", QMax(RowSum(K), RowSum(MT(K))))), QAdd(QAdd("1", VMax(w)), IF NS = <<>> THEN "0" ELSE QMax(RowSum(E), RowSum(MT(E)))))))
Project(e, bs, i, kind) ==
  LET b == bs[i] IN
  CASE kind = "fwd" ->
         LET x == Moments(e.tr, e.md.f, IF i = 1 THEN Mom(e.prior.m, e.prior.S) ELSE FwdCavity(bs[i-1], e.p), e.ts[i]) IN
         IF x.k # "ok" THEN x ELSE Widen(ProjTrans(x.T, e.md.Q, e.p), Slack(x.T), QAdd("1", Inv1(e.p)))
    [] kind = "meas" ->
         IF \E r \in 1..Len(e.ys[i]) : ~IsQ(e.ys[i][r]) THEN [k |-> "fail"] ELSE      \* no number, no proper projection
         LET x == Moments(e.mr, e.md.h, MeasCavity(b), "0") IN
         IF x.k # "ok" THEN x ELSE
         Widen(ProjMeas(x.T, x.m, x.S, e.md.R, e.p, e.ys[i]), Slack(x.T),
               Spread(x.T, MAdd(x.T.cov, MScale(Inv1(e.p), e.md.R)), x.m, VSub(e.ys[i], x.T.mean), <<>>))
    [] kind = "back" ->
         LET x == Moments(e.tr, e.md.f, BackCavity(b), e.ts[i+1]) IN
         IF x.k # "ok" THEN x ELSE
         LET nx == MomOf(bs[i+1].marg) IN IF ~nx.ok THEN [k |-> "edge"] ELSE
         Widen(ProjBack(x.T, x.m, x.S, e.md.Q, e.p, NextCavity(bs[i+1], e.p), <<bs[i+1].marg>>), Slack(x.T),
               Spread(x.T, MAdd(x.T.cov, MScale(Inv1(e.p), e.md.Q)), x.m, VSub(nx.m, x.T.mean), nx.S))

Shaken(x, s) == IF s = "0" THEN Mom(x.m, x.S) ELSE
  Mom(Force([i \in 1..Len(x.m) |-> QAdd(QMul(QAdd("1", s), x.m[i]), IF i % 2 = 1 THEN x.tm ELSE QNeg(x.tm))]),
      MAdd(MScale(QAdd("1", QMul("2", s)), x.S), MScale(IF QLt("0", s) THEN x.tS ELSE QDiv(x.tS, "2"), Eye(Len(x.m)))))
EngineStep(e, bs, i, kind, shake) ==
  IF kind = "back" /\ i = Len(bs) THEN bs ELSE
  LET x == Project(e, bs, i, kind) IN
  IF x.k = "fail" THEN bs ELSE IF x.k = "edge" THEN <<>> ELSE
  LET g == Shaken(x, IF kind = "meas" THEN QNeg(shake) ELSE shake) v == Verdict(bs[i], kind, g, e.p, e.d) IN
  IF v = "edge" THEN <<>> ELSE IF v = "refuse" THEN bs
  ELSE LET y == Apply(bs[i], kind, g, e.p, e.d) IN
       IF ~(NatOf(y.marg).ok /\ NatOf(y[kind]).ok) THEN <<>> ELSE [bs EXCEPT ![i] = BareB(y)]
RECURSIVE EngineRun(_, _, _, _, _)
EngineRun(e, bs, plan, j, shake) ==
  IF j > Len(plan) \/ bs = <<>> THEN bs
  ELSE LET nx == Force(EngineStep(e, bs, plan[j][1], plan[j][2], shake)) IN EngineRun(e, nx, plan, j + 1, shake)
Sweep(e, bs, shake) == IF bs = <<>> THEN bs ELSE EngineRun(e, bs, PP!Plan("sweep", Len(bs)), 1, shake)
Pass(e, bs, what, shake) == IF bs = <<>> THEN bs ELSE EngineRun(e, bs, PP!Plan(what, Len(bs)), 1, shake)

(* the beliefs after each of k sweeps *)
RECURSIVE Sweeps(_, _, _, _)
Sweeps(e, bs, k, shake) == IF k = 0 THEN <<>> ELSE LET b == Force(Sweep(e, bs, shake)) IN <<b>> \o Sweeps(e, b, k - 1, shake)

ShakeBy == "1/1000000000"
(* squared distance of two beliefs, in standard deviations of the first (its covariance has a positive diagonal) *)
Dist2(x, y) ==
  LET n == Len(x.m) IN
  R(QMax(VMax(Force([i \in 1..n |-> QDiv(QSq(QSub(x.m[i], y.m[i])), x.S[i][i])])),
         MMax(Force([i \in 1..n |-> [j \in 1..n |-> QDiv(QSq(QSub(x.S[i][j], y.S[i][j])), QMul(x.S[i][i], x.S[j][j]))]]))))
DiagPos(A) == \A i \in 1..Len(A) : QLt("0", A[i][i])
(* squared distance of two factors in the metric of a marginal's natural parameters N *)
DistF2(x, y, N) ==
  LET n == Len(x.h) IN
  R(QMax(VMax(Force([i \in 1..n |-> QDiv(QSq(QSub(x.h[i], y.h[i])), N.P[i][i])])),
         MMax(Force([i \in 1..n |-> [j \in 1..n |-> QDiv(QSq(QSub(x.P[i][j], y.P[i][j])), QMul(N.P[i][i], N.P[j][j]))]]))))
Base2 == "1/1000000000000"                \* (1e-6)^2
Loose2 == "1/10000000000"                 \* (1e-5)^2
Sound2(d2) == QLe(d2, Loose2)
Allow2(d2) == QAdd(Base2, QMul("100", d2))
=============================================================================
