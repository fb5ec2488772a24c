-------------------------------- MODULE Estim --------------------------------
(* The estimator's three projections.  T = [mean, cov, cross] are the moments    *)
(* the transform gives; p is the power.  A result is                             *)
(*   [k |-> "ok", m, S, tm, tS]   mean, covariance and how far doubles may be    *)
(*   [k |-> "fail"]               LinAlgError                                    *)
(*   [k |-> "edge"]               rounding decides between the two, or the       *)
(*                                problem is too ill conditioned to judge        *)
EXTENDS Transforms
PDTol == "1/10000000000"
Res(k)           == [k |-> k]
ResOk(m, S, tm, tS) == IF QLe(tm, QAdd("1/100", QMul("1/100", VMax(m)))) /\ QLe(tS, QAdd("1/100", QMul("1/100", MMax(S))))
                       THEN [k |-> "ok", m |-> m, S |-> S, tm |-> tm, tS |-> tS] ELSE Res("edge")

(* time update: N(mu, (C + Q)/p) *)
ProjTrans(T, Q, p) ==
  LET D == Sym(MScale(QDiv("1", p), MAdd(T.cov, Q)))
      c == PDClass(D, PDTol)
      t == R(QDiv(QMul("1024", QMul(Eps, QAdd(MMax(T.cov), MMax(Q)))), p))
  IN  IF c = "notpd" THEN Res("fail") ELSE IF c = "edge" THEN Res("edge")
      ELSE ResOk(T.mean, D, R(QMul("16", QMul(Eps, VMax(T.mean)))), t)

(* gain X D^-1 and the rounding it suffers *)
Gain(X, D) ==
  LET I == MInv(D) IN
  IF I = <<>> THEN [ok |-> FALSE] ELSE
  LET K == MMul(X, I) IN
  [ok |-> TRUE, K |-> K, e |-> R(QMul(QMul("1024", Eps), QMul(RowSum(X), QMul(RowSum(I), QMul(RowSum(D), RowSum(I))))))]

(* measurement update of N(m, S): m + K (y - mu), S - K X' with K = X (C + R/p)^-1 *)
ProjMeas(T, m, S, Rn, p, y) ==
  LET D == Sym(MAdd(T.cov, MScale(QDiv("1", p), Rn)))
      cs == PDClass(S, PDTol)
      cd == PDClass(D, PDTol)
  IN  IF cs = "notpd" \/ (cs = "pd" /\ cd = "notpd") THEN Res("fail")
      ELSE IF cs = "edge" \/ cd # "pd" THEN Res("edge") ELSE
      LET G == Gain(T.cross, D)
          d == VSub(y, T.mean)
          mm == VAdd(m, MVec(G.K, d))
          SS == Sym(MSub(S, MMul(G.K, MT(T.cross))))
          dm == R(QAdd(VMax(y), VMax(T.mean)))
          n  == QInt(Len(m))
      IN  ResOk(mm, SS,
                R(QMul(n, QAdd(QMul(G.e, dm), QMul(QMul("1024", Eps), QAdd(VMax(m), QMul(RowSum(G.K), dm)))))),
                R(QMul(n, QAdd(QMul(G.e, RowSum(T.cross)), QMul(QMul("1024", Eps), QAdd(MMax(S), QMul(RowSum(G.K), RowSum(T.cross))))))))

(* Rauch-Tung-Striebel step of N(m, S) towards a successor with moments (nm, NS): D is the predictive covariance *)
Rts(T, m, S, D, nm, NS, en) ==
  LET G == Gain(T.cross, D) IN
  IF ~G.ok THEN Res("edge") ELSE
  LET mm == VAdd(m, MVec(G.K, VSub(nm, T.mean)))
      SS == Sym(MAdd(S, Quad(G.K, MSub(NS, D))))
      n  == QInt(Len(m))
      kk == RowSum(G.K)
      dm == R(QAdd(VMax(nm), VMax(T.mean)))
      dS == R(QAdd(MMax(NS), MMax(D)))
  IN  ResOk(mm, SS,
            R(QMul(n, QAdd(QAdd(QMul(G.e, dm), QMul(kk, en)), QMul(QMul("1024", Eps), QAdd(VMax(m), QMul(kk, dm)))))),
            R(QMul(QMul(n, n), QAdd(QAdd(QMul("2", QMul(G.e, QMul(kk, dS))), QMul(QSq(kk), en)),
                            QMul(QMul("1024", Eps), QAdd(MMax(S), QMul(QSq(kk), dS)))))))
(* backward update: the successor's moments are those of next (power 1, next given: a sequence of one Gaussian, or of none) *)
(* or of N(mu, D) * cavity^p                                                                                              *)
ProjBack(T, m, S, Q, p, cav, next) ==
  LET D == Sym(MAdd(T.cov, MScale(QDiv("1", p), Q))) IN
  IF PDClass(D, PDTol) # "pd" THEN Res("edge") ELSE
  LET g == IF p = "1" /\ Len(next) = 1 THEN next[1] ELSE Mul(Mom(T.mean, D), Pow(cav, p)) IN
  LET nx == MomOf(g) IN
  IF ~nx.ok THEN Res("edge") ELSE Rts(T, m, S, D, nx.m, nx.S, nx.e)
=============================================================================
