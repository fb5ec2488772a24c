-------------------------------- MODULE Gauss --------------------------------
(* Gaussians.  A value g has k = "mom" with mean m and covariance S, or        *)
(* k = "nat" with precision P and shift h.  e bounds, for each entry of the    *)
(* given parameters, how far double-precision arithmetic may be from the       *)
(* rational one: trace checking follows the rounding along with the value.     *)
EXTENDS Mat
LargeNum == "10000000000"                             \* 1e10, variance of the flat Gaussian
Flat     == "1/10000000000"                           \* 1e-10: a precision whose entries do not add up to more is flat
Jit      == "1/10000000000"                           \* jitter of the guarded routines
Eps      == IF Exact THEN "0" ELSE "1/4503599627370496"   \* 2^-52
Tiny     == "1/1000"
Mom(m, S)         == [k |-> "mom", m |-> m, S |-> S, e |-> "0"]
NatE(P, h, e)     == [k |-> "nat", P |-> P, h |-> h, e |-> e]
Natural(P, h)       == NatE(P, h, "0")
Dim(g)            == IF g.k = "mom" THEN Len(g.m) ELSE Len(g.h)
FactorOf(n)       == Natural(ZeroM(n, n), ZeroV(n))
MarginalOf(n)     == Mom(ZeroV(n), MScale(LargeNum, Eye(n)))

QN(n)             == QInt(n)
Round(n, x)       == IF Exact THEN "0" ELSE R(QMul(QMul(QN(64 * n), Eps), x))   \* rounding of an n-term computation of size x

(* the inverse of A known to e per entry: [ok, X, e] *)
Inverse(A, e) ==
  LET n == Len(A) X == MInv(A) IN
  IF X = <<>> THEN [ok |-> FALSE, X |-> A, e |-> "1"] ELSE
  LET nx == RowSum(X) na == RowSum(A)
      jit == IF Exact \/ PDClass(A, "1/1000000000000") = "pd" THEN "0" ELSE Jit
      b  == R(QAdd(QMul(QMul(nx, nx), QMul(QN(n), QAdd(e, jit))), Round(n, QMul(QMul(nx, na), nx))))
  IN  [ok |-> QLe(b, QMul(Tiny, nx)), X |-> X, e |-> b]

DiagSum(P) == Sum([i \in 1..Len(P) |-> QAbs(P[i][i])])

AbsSum(P)  == Sum([i \in 1..Len(P) |-> Sum([j \in 1..Len(P) |-> QAbs(P[i][j])])])
(* zero to within 1e-10: "yes"; "no" when an entry, or the diagonal as a whole, is larger; between, rounding and the way of adding up decide *)
IsFlat(P, e) ==
  LET n == Len(P) d == DiagSum(P) slack == R(QMul(QN(n), e)) IN
  IF QLt(QAdd(Flat, slack), d) \/ QLt(QAdd(Flat, e), MMax(P)) THEN "no"
  ELSE IF QLt(QAdd(AbsSum(P), QMul(QN(n), slack)), Flat) THEN "yes" ELSE "edge"

(* natural form: [ok, P, h, e] *)
NatOf(g) ==
  IF g.k = "nat" THEN [ok |-> TRUE, P |-> g.P, h |-> g.h, e |-> g.e]
  ELSE LET n == Len(g.m) I == Inverse(g.S, g.e) IN
       IF ~I.ok THEN [ok |-> FALSE, P |-> g.S, h |-> g.m, e |-> "1"] ELSE
       LET P == Sym(I.X) h == MVec(P, g.m)
           eh == R(QAdd(QMul(QN(n), QMul(I.e, VMax(g.m))), Round(n, QMul(RowSum(P), VMax(g.m)))))
       IN  [ok |-> TRUE, P |-> P, h |-> h, e |-> QMax(I.e, eh)]

(* moment form: [ok, m, S, e, flat] *)
MomOf(g) ==
  IF g.k = "mom" THEN [ok |-> TRUE, m |-> g.m, S |-> g.S, e |-> g.e, flat |-> FALSE]
  ELSE LET n == Len(g.h) fl == IsFlat(g.P, g.e) IN
       IF fl = "yes"
       THEN [ok |-> TRUE, m |-> ZeroV(n), S |-> MScale(LargeNum, Eye(n)), e |-> "1/100000000000", flat |-> TRUE]
       ELSE IF fl = "edge" THEN [ok |-> FALSE, m |-> g.h, S |-> g.P, e |-> "1", flat |-> FALSE]
       ELSE LET I == Inverse(g.P, g.e) IN
            IF ~I.ok THEN [ok |-> FALSE, m |-> g.h, S |-> g.P, e |-> "1", flat |-> FALSE] ELSE
            LET S == Sym(I.X) m == MVec(S, g.h)
                em == R(QAdd(QMul(QN(n), QAdd(QMul(I.e, VMax(g.h)), QMul(RowSum(S), g.e))), Round(n, QMul(RowSum(S), VMax(g.h)))))
            IN  [ok |-> QLe(em, QMul(Tiny, QAdd(VMax(m), RowSum(S)))), m |-> m, S |-> S, e |-> QMax(I.e, em), flat |-> FALSE]

(* product, quotient, power *)
PSize(a, b) == QAdd(QMax(MMax(a.P), VMax(a.h)), QMax(MMax(b.P), VMax(b.h)))
Mul(a, b) == LET x == NatOf(a) y == NatOf(b)
             IN  NatE(MAdd(x.P, y.P), VAdd(x.h, y.h), R(QAdd(QAdd(x.e, y.e), Round(1, PSize(x, y)))))
Div(a, b) == LET x == NatOf(a) y == NatOf(b)
             IN  NatE(MSub(x.P, y.P), VSub(x.h, y.h), R(QAdd(QAdd(x.e, y.e), Round(1, PSize(x, y)))))
Pow(a, c) == LET x == NatOf(a)
             IN  NatE(MScale(c, x.P), VScale(c, x.h), R(QAdd(QMul(QAbs(c), x.e), Round(1, QMul(QAbs(c), PSize(x, x))))))
OkNat(a)  == NatOf(a).ok

(* a proper Gaussian: "pd", "notpd", or "edge" when rounding decides *)
MarginS   == "1/10000000"
Proper(g) ==
  IF g.k = "mom" THEN PDClass(g.S, MarginS)
  ELSE LET M == MomOf(g) IN
       IF M.flat THEN "pd" ELSE IF ~M.ok THEN "edge" ELSE
       LET c == PDClass(g.P, MarginS) d == PDClass(M.S, MarginS) IN
       IF c = d THEN c ELSE "edge"

Ln2Pi == QLn(QMul("2", QPi))
NegLogDensity(g, x) ==                                  \* proper g
  LET M == MomOf(g) n == Len(M.m)
      y == VSub(x, M.m)
      w == MVec(MInv(M.S), y)
  IN  R(QDiv(QAdd(QAdd(QMul(QN(n), Ln2Pi), QLn(Det(M.S))), Dot(y, w)), "2"))
SqErr(g, x) == LET y == VSub(MomOf(g).m, x) IN Dot(y, y)
=============================================================================
