-------------------------------- MODULE Kalman --------------------------------
(* Gaussian filtering and smoothing of a state-space model                       *)
(*   md = [f, h, Q, R]    (f, h: functions of Funs)                              *)
(* with transforms tr (transition) and mr (measurement).  Every step is a Res of *)
(* Estim; slack is a further allowance for the doubles inside the transform.     *)
EXTENDS Estim
Slack(T) == R(QAdd(QMul("1/10000000000000", QAdd(T.size, T.sizem)), "1/1000000000000000"))
Widen(x, s, k) == IF x.k # "ok" THEN x ELSE
  LET tm == QAdd(x.tm, QMul(s, k)) tS == QAdd(x.tS, QMul(s, k)) IN ResOk(x.m, x.S, tm, tS)

Predict(md, tr, g, t, u) ==
  LET T == Transform(tr, md.f, g.m, g.S, t, u) IN
  Widen(ProjTrans(T, md.Q, "1"), Slack(T), "1")
Correct(md, mr, g, y, t, u) ==
  LET T == Transform(mr, md.h, g.m, g.S, t, u)
      x == ProjMeas(T, g.m, g.S, md.R, "1", y)
      I == MInv(MAdd(T.cov, md.R))
  IN  IF x.k # "ok" THEN x ELSE
      LET K == MMul(T.cross, I) w == MVec(I, VSub(y, T.mean)) IN
      Widen(x, Slack(T), QMul(QInt(4 * Len(g.m)), QMul(QSq(QAdd("1", QMax(RowSum(K), RowSum(MT(K))))), QAdd("1", VMax(w)))))
Smooth(md, tr, g, next, t, u) ==
  LET T == Transform(tr, md.f, g.m, g.S, t, u)
      D == Sym(MAdd(T.cov, md.Q))
  IN  IF PDClass(D, PDTol) # "pd" THEN Res("edge") ELSE
      LET x == Rts(T, g.m, g.S, D, next.m, next.S, "0")
          I == MInv(D)
          K == MMul(T.cross, I)
          w == MVec(I, VSub(next.m, T.mean))
          E == MMul(I, MSub(next.S, D))
      IN  Widen(x, Slack(T), QMul(QInt(4 * Len(g.m)), QMul(QSq(QAdd("1", QMax(RowSum(K), RowSum(MT(K))))), QAdd(QAdd("1", VMax(w)), QMax(RowSum(E), RowSum(MT(E)))))))
AsMom(x) == [m |-> x.m, S |-> x.S]
(* one filter step from g; extra(m, S): a further allowance for the prediction N(m, S), carried through the correction *)
FilterStepX(md, tr, mr, g, y, t, u, extra(_, _)) ==
  LET q == Predict(md, tr, g, t, u) IN IF q.k # "ok" THEN q ELSE
  LET c == Correct(md, mr, AsMom(q), y, t, u)
      T == Taylor(md.h, q.m, q.S, t, u)
      H == FJac(md.h, q.m, t, u)
      I == MInv(MAdd(T.cov, md.R))
      K == MMul(T.cross, I)
      w == MVec(I, VSub(y, T.mean))
      x == Widen(c, QAdd(QAdd(q.tm, q.tS), extra(q.m, q.S)),
                    QMul(QMul(QInt(4 * Len(q.m)), QSq(QAdd("1", QMax(RowSum(H), RowSum(MT(H)))))),
                         QMul(QSq(QAdd("1", QMax(RowSum(K), RowSum(MT(K))))), QAdd("1", VMax(w)))))
  IN  IF x.k # "ok" THEN x ELSE Widen(x, extra(x.m, x.S), "1")
NoExtra(m, S) == "0"
FilterStep(md, tr, mr, g, y, t, u) == FilterStepX(md, tr, mr, g, y, t, u, NoExtra)

(* Gauss-Newton measurement update: num relinearisations of N(x, P) about successive iterates *)
RECURSIVE GN(_, _, _, _, _, _, _)
GN(md, g, y, t, u, z, num) ==
  LET H == FJac(md.h, z, t, u)
      hz == FEval(md.h, z, t, u)
      X == MMul(g.S, MT(H))
      D == Sym(MAdd(MMul(H, X), md.R))
      K == MMul(X, MInv(D))
      z2 == VAdd(g.m, MVec(K, VSub(VSub(y, hz), MVec(H, VSub(g.m, z)))))
  IN  IF num = 1 THEN [m |-> z2, S |-> MSub(g.S, MMul(K, MT(X)))] ELSE GN(md, g, y, t, u, z2, num - 1)

(* the model linearised about given points: transition into step i about a[i], measurement about b[i] *)
Lin(d, x0, t, u) == [k |-> "affine", x0 |-> x0, y0 |-> FEval(d, x0, t, u), J |-> FJac(d, x0, t, u)]
=============================================================================
