------------------------------ MODULE Transforms ------------------------------
(* Moment matching: mean, covariance and input-output cross-covariance of f(x)  *)
(* for x ~ N(m, S).  size carries the magnitude of the terms that were added,   *)
(* the yardstick for rounding.                                                  *)
EXTENDS Funs, Gauss

Taylor(d, m, S, t, u) ==
  LET J == FJac(d, m, t, u) y == FEval(d, m, t, u) C == Quad(J, S) X == MMul(S, MT(J)) IN
  [ok |-> TRUE, mean |-> y, cov |-> C, cross |-> X, ev |-> "0",
   size |-> QAdd(QMul(QSq(RowSum(J)), RowSum(S)), "0"), sizem |-> QAdd(VMax(y), QMul(RowSum(J), QAdd("1/1000", VMax(m))))]

(* scaled unscented weights of dimension n *)
UTScale(n, p)  == QMul(QSq(p.alpha), QAdd(QInt(n), p.kappa))              \* n + lambda
UTWm0(n, p)    == QDiv(QSub(UTScale(n, p), QInt(n)), UTScale(n, p))
UTWc0(n, p)    == QAdd(UTWm0(n, p), QAdd(QSub("1", QSq(p.alpha)), p.beta))
UTWi(n, p)     == QDiv("1", QMul("2", UTScale(n, p)))

(* weighted moments of function values at given points (2n + 1 of them, the first the centre) *)
RECURSIVE WSum(_, _, _)
WSum(w, V, k)  == IF k = 1 THEN VScale(w[1], V[1]) ELSE VAdd(WSum(w, V, k - 1), VScale(w[k], V[k]))
RECURSIVE WOuter(_, _, _, _)
WOuter(w, A, B, k) == IF k = 1 THEN MScale(w[1], Outer(A[1], B[1]))
                      ELSE MAdd(WOuter(w, A, B, k - 1), MScale(w[k], Outer(A[k], B[k])))
AbsV(v)  == Force([i \in 1..Len(v) |-> QAbs(v[i])])
UTMoments(n, p, pts, vals) ==
  LET K  == Len(pts)
      wm == Force([i \in 1..K |-> IF i = 1 THEN UTWm0(n, p) ELSE UTWi(n, p)])
      wc == Force([i \in 1..K |-> IF i = 1 THEN UTWc0(n, p) ELSE UTWi(n, p)])
      y  == WSum(wm, vals, K)
      dv == Force([i \in 1..K |-> VSub(vals[i], y)])
      dx == Force([i \in 1..K |-> VSub(pts[i], pts[1])])
      big == QAdd(QMul(QAbs(wc[1]), "1"), QAdd(QAbs(wm[1]), QMul(QInt(K), wm[2])))
      my  == VMax(Force([i \in 1..K |-> VMax(vals[i])]))
      mdx == VMax(Force([i \in 1..K |-> VMax(pts[i])]))
  IN  [ok |-> TRUE, mean |-> y, cov |-> WOuter(wc, dv, dv, K), cross |-> WOuter(wc, dx, dv, K), ev |-> "0",
       sizem |-> R(QMul(big, my)), size |-> R(QMul(QMul(QSq(big), QAdd("1", QMul("1/200", big))), QMul(my, QAdd(my, mdx))))]

(* upper triangular U with U'U = S (S positive definite); sigma points are m +- sqrt(n + lambda) * rows of U *)
RECURSIVE CholRow(_, _, _, _)
CholRow(S, U, i, n) ==
  IF i > n THEN U ELSE
  LET s(j) == QSub(S[i][j], XSum(Force([k \in 1..(i-1) |-> QMul(U[k][i], U[k][j])])))
      dd   == R(QSqrt(R(s(i))))
      row  == RV([j \in 1..n |-> IF j < i THEN "0" ELSE IF j = i THEN dd ELSE QDiv(s(j), dd)])
  IN  CholRow(S, Append(U, row), i + 1, n)
CholUpper(S) == CholRow(S, <<>>, 1, Len(S))
SigmaPoints(m, S, p) ==
  LET n == Len(m) U == CholUpper(S) c == QSqrt(UTScale(n, p)) IN
  Force(<<m>> \o [i \in 1..n |-> VAdd(m, VScale(c, U[i]))] \o [i \in 1..n |-> VSub(m, VScale(c, U[i]))])
Unscented(p, d, m, S, t, u) ==
  LET pts == SigmaPoints(m, S, p)
      vals == Force([i \in 1..Len(pts) |-> FEval(d, pts[i], t, u)])
  IN  UTMoments(Len(m), p, pts, vals)

(* a transform tr: [k |-> "TT"] or [k |-> "UT", alpha, beta, kappa] *)
Transform(tr, d, m, S, t, u) ==
  IF tr.k = "TT" THEN Taylor(d, m, S, t, u) ELSE Unscented(tr, d, m, S, t, u)

(* Monte Carlo: moments of the drawn samples *)
MeanOf(V)  == LET K == Len(V) n == Len(V[1]) IN
  RV([j \in 1..n |-> QDiv(XSum(Force([i \in 1..K |-> V[i][j]])), QInt(K))])
CoMom(A, a, B, b) == LET K == Len(A) IN
  RM([i \in 1..Len(a) |-> [j \in 1..Len(b) |->
      QDiv(XSum(Force([k \in 1..K |-> QMul(QSub(A[k][i], a[i]), QSub(B[k][j], b[j]))])), QInt(K - 1))]])
=============================================================================
