---------------------------------- MODULE Draws ----------------------------------
(* What a list X of draws from N(m, S) looks like, to 7 to 9 standard errors (a    *)
(* false alarm is rarer than 1e-9): mean, covariance, and no correlation between   *)
(* draws at small distances, at half the length, and paired from the ends.         *)
EXTENDS Mat
ColMean(X, j)   == R(QDiv(XSum([i \in 1..Len(X) |-> X[i][j]]), QInt(Len(X))))
CoMoment(X, m, a, b) == R(QDiv(XSum(Force([i \in 1..Len(X) |-> QMul(QSub(X[i][a], m[a]), QSub(X[i][b], m[b]))])), QInt(Len(X))))
SampleOk(X, m, S) ==
  LET n == Len(m) k == QInt(Len(X)) IN
  /\ \A j \in 1..n : QLe(QSq(QSub(ColMean(X, j), m[j])), QAdd(QDiv(QMul("49", S[j][j]), k), "1/1000000000000"))
  /\ \A a, b \in 1..n : a <= b =>
       QLe(QSq(QSub(CoMoment(X, m, a, b), S[a][b])),
           QAdd(QDiv(QMul("64", QAdd(QMul(S[a][a], S[b][b]), QSq(S[a][b]))), k), "1/1000000000000"))
PairMoment(X, m, j, ps) ==
  R(QDiv(XSum(Force([i \in 1..Len(ps) |-> QMul(QSub(X[ps[i][1]][j], m[j]), QSub(X[ps[i][2]][j], m[j]))])), QInt(Len(ps))))
Lagged(N, L) == [i \in 1..(N - L) |-> <<i, i + L>>]
Mirrored(N)  == [i \in 1..(N \div 2) |-> <<i, N + 1 - i>>]
Uncorrelated(X, m, S) ==
  LET N == Len(X) IN
  \A j \in 1..Len(m) : \A ps \in {Lagged(N, 1), Lagged(N, 2), Lagged(N, N \div 2), Mirrored(N)} :
     QLe(QSq(PairMoment(X, m, j, ps)), QAdd(QDiv(QMul("81", QSq(S[j][j])), QInt(Len(ps))), "1/1000000000000"))
=============================================================================
