-------------------------------- MODULE TGauss --------------------------------
(* Histories of calls on Gaussian objects (C01-C03, C05) and on the guarded     *)
(* linear algebra (C04).  The state is the register file of the history: what   *)
(* each object is, by the specification, and what it showed when it was made.   *)
EXTENDS TraceBase, Gauss, Draws

Start(run) == [regs |-> <<>>, shown |-> <<>>]
Rel == "1/1000000000"                                   \* 1e-9
TolOf(x, e) == R(QAdd(QMul(QN(4), e), QMul(Rel, x)))

New(e, regs) ==
  CASE e.op = "mom"  -> Mom(e.m, e.S)
    [] e.op = "nat"  -> Natural(e.P, e.h)
    [] e.op = "factor"   -> FactorOf(e.n)
    [] e.op = "marginal" -> MarginalOf(e.n)
    [] e.op = "copy" -> regs[e.a]
    [] e.op = "mul"  -> Mul(regs[e.a], regs[e.b])
    [] e.op = "div"  -> Div(regs[e.a], regs[e.b])
    [] e.op = "pow"  -> Pow(regs[e.a], e.c)
IsOp(e)   == e.op \in {"mul", "div", "pow"}
Makes(e)  == e.op \in {"mom", "nat", "factor", "marginal", "copy", "mul", "div", "pow"}
Operands(e) == IF e.op \in {"mul", "div"} THEN {e.a, e.b} ELSE IF e.op \in {"pow", "copy"} THEN {e.a} ELSE {}

WfShow(s, n) == WfV(s.mean, n) /\ WfM(s.cov, n, n) /\ WfV(s.shift, n) /\ WfM(s.precision, n, n)
MSymm(A, t)  == \A i, j \in 1..Len(A) : QLe(QAbs(QSub(A[i][j], A[j][i])), t)

(* the parameters a new object shows *)
JudgeNew(e, g, sound) ==
  LET n == Dim(g) IN
  IF e.exc # "" THEN <<OkIf(IF IsOp(e) THEN "C01.Raised" ELSE "C02.Raised", sound, FALSE)>>
  ELSE IF ~WfShow(e.show, n) THEN <<OkIf(IF IsOp(e) THEN "C01.Shape" ELSE "C02.Shape", sound, FALSE)>>
  ELSE
  LET N == NatOf(g) M == MomOf(g)
      tn == TolOf(QMax(MMax(N.P), VMax(N.h)), N.e)
      tP == TolOf(MMax(N.P), N.e)
      tS == TolOf(MMax(M.S), M.e)
      tm == TolOf(QMax(VMax(M.m), "0"), M.e)
      own == IF IsOp(e) THEN "C01." \o e.op ELSE "C02.given"
  IN  << OkIf(own, sound /\ N.ok, MNear(e.show.precision, N.P, tP) /\ VNear(e.show.shift, N.h, tn)),
         OkIf("C02.moments", sound /\ M.ok, MNear(e.show.cov, M.S, tS) /\ VNear(e.show.mean, M.m, tm)),
         OkIf("C02.symmetric", sound /\ M.ok /\ N.ok,
              MSymm(e.show.cov, QMul(Rel, MMax(M.S))) /\ MSymm(e.show.precision, QMul(Rel, MMax(N.P)))),
         OkIf("C02.natural", sound /\ N.ok, MNear(e.show.precision, N.P, tP) /\ VNear(e.show.shift, N.h, tn)) >>

(* a later reading: what was shown when the object was made *)
ReadOk(s, attr, v) ==
  CASE attr = "mean"      -> VNear(v, s.mean, QMul(Rel, VMax(s.mean)))
    [] attr = "shift"     -> VNear(v, s.shift, QMul(Rel, VMax(s.shift)))
    [] attr = "cov"       -> MNear(v, s.cov, QMul(Rel, MMax(s.cov)))
    [] attr = "precision" -> MNear(v, s.precision, QMul(Rel, MMax(s.precision)))
WfRead(attr, v, n) == IF attr \in {"mean", "shift"} THEN WfV(v, n) ELSE WfM(v, n, n)

(* recomputing an ill-conditioned inverse from equal numbers may differ in the last digits *)
Calm(g) == NatOf(g).ok /\ MomOf(g).ok

JudgeRead(e, g, s) ==
  IF e.exc # "" THEN <<Ok("C03.Raised", FALSE)>> ELSE
  CASE e.attr = "dim"  -> <<Ok("C03.dim", e.v = Dim(g))>>
    [] e.attr = "chol" ->
        LET n == Dim(g) M == MomOf(g) IN
        IF ~WfM(e.v, n, n) THEN <<OkIf("C03.chol", M.ok, FALSE)>>
        ELSE <<OkIf("C03.chol", M.ok, MNear(MMul(e.v, MT(e.v)), M.S, TolOf(MMax(M.S), M.e)))>>
    [] OTHER ->
        LET good == WfRead(e.attr, e.v, Dim(g)) /\ ReadOk(s, e.attr, e.v)
        IN  <<OkIf("C03.read", Calm(g), good), OkIf("C02.read", Calm(g), good)>>

JudgeCholRaise(e, g) == LET p == Proper(g) IN
  <<OkIf("C03.chol", p # "edge", (e.exc = "LinAlgError") <=> (p = "notpd"))>>

JudgeNll(e, g) ==
  LET p == Proper(g) M == MomOf(g) IN
  IF p # "pd" \/ ~M.ok THEN <<Skip("C05.nll")>> ELSE
  LET c == Cond(M.S) sound == QLe(c, "100000000") IN
  IF ~sound THEN <<Skip("C05.nll")>> ELSE
  IF e.exc # "" \/ ~IsQ(e.v) THEN <<Ok("C05.nll", FALSE)>> ELSE
  LET v == NegLogDensity(g, e.x)
      y == VSub(e.x, M.m)
      q == Dot(y, y)
      \* sensitivity: the Mahalanobis term is q/lambda_min, known to the relative error of the inverse
      rel == R(QAdd("1/10000000", QMul(QMul(Eps, c), QN(1000 * Len(M.m)))))
      tol == R(QMul(rel, QAdd(QN(40 * Len(M.m)), QAdd(QAbs(v), QMul(RowSum(MInv(M.S)), q)))))
  IN <<OkIf("C05.nll", QLe(rel, Tiny), QNear(v, e.v, tol))>>

(* coordinates of variance zero, observed at their value: the density of the others *)
JudgeNllDeg(e, g) ==
  LET n == Len(g.m)
      keep == SelectSeq([i \in 1..n |-> i], LAMBDA i : g.S[i][i] # "0")
      h == Mom(Force([i \in 1..Len(keep) |-> g.m[keep[i]]]), Force([i \in 1..Len(keep) |-> Force([j \in 1..Len(keep) |-> g.S[keep[i]][keep[j]]])]))
  IN  JudgeNll([e EXCEPT !.x = Force([i \in 1..Len(keep) |-> e.x[keep[i]]])], h)

JudgeSe(e, g) ==
  LET M == MomOf(g) IN
  IF ~M.ok THEN <<Skip("C05.sq")>> ELSE
  IF e.exc # "" \/ ~IsQ(e.v) THEN <<Ok("C05.sq", FALSE)>> ELSE
  LET v == SqErr(g, e.x) y == VSub(M.m, e.x)
      tol == QAdd(QMul("1/100000000", v), QMul(QMul(QN(8 * Len(e.x)), M.e), QAdd(VMax(y), M.e)))
      size == QMul(QMul(Eps, "64"), QMul(QAdd(VMax(M.m), VMax(e.x)), QAdd(VMax(y), QMul(Eps, QAdd(VMax(M.m), VMax(e.x))))))
  IN <<Ok("C05.sq", QNear(v, e.v, QAdd(tol, QMul(QN(Len(e.x)), size))))>>

(* == : np.allclose with 1e-3 on mean and covariance; cases near the threshold are not judged *)
EqTol == "1/1000"
AllWithin(a, b, f) == \A i \in 1..Len(a) : QLe(QAbs(QSub(a[i], b[i])), QMul(f, QAdd(EqTol, QMul(EqTol, QAbs(b[i])))))
EqWithin(A, B, f) == /\ AllWithin(A.m, B.m, f) /\ \A i \in 1..Len(A.S) : AllWithin(A.S[i], B.S[i], f)
JudgeEq(e, a, b) ==
  LET A == MomOf(a) B == MomOf(b) IN
  IF ~A.ok \/ ~B.ok THEN <<Skip("C05.eq")>> ELSE
  LET yes == EqWithin(A, B, "99/100") /\ QLe(A.e, "1/1000000") /\ QLe(B.e, "1/1000000") no == ~EqWithin(A, B, "101/100") IN
  IF ~yes /\ ~no THEN <<Skip("C05.eq")>> ELSE
  <<OkIf("C05.eq", QLe(A.e, QAdd("1/1000000", QMul("1/1000000", MMax(A.S)))) /\ QLe(B.e, QAdd("1/1000000", QMul("1/1000000", MMax(B.S)))),
         e.exc = "" /\ e.v = yes)>>

(* lists: rmse, nll, node_metrics *)
RECURSIVE MeanOver(_, _, _, _)
MeanOver(F(_, _), gs, xs, k) == IF k = 0 THEN "0" ELSE QAdd(MeanOver(F, gs, xs, k - 1), F(gs[k], xs[k]))
JudgeMetric(e, regs) ==
  LET gs == [i \in 1..Len(e.a) |-> regs[e.a[i]]]
      n  == Len(e.a)
      calm == \A i \in 1..n : MomOf(gs[i]).ok /\ Proper(gs[i]) = "pd" /\ QLe(Cond(MomOf(gs[i]).S), "1000000")
  IN
  IF ~calm THEN <<Skip("C05.metric")>> ELSE
  IF e.exc # "" \/ ~IsQ(e.v) THEN <<Ok("C05.metric", FALSE)>> ELSE
  LET ms  == QDiv(MeanOver(SqErr, gs, e.x, n), QN(n))
      nl  == QDiv(MeanOver(NegLogDensity, gs, e.x, n), QN(n))
      t   == "1/100000"
  IN  IF e.what = "rmse"
      THEN <<Ok("C05.rmse", QLe("0", e.v) /\ QNear(QSq(e.v), ms, QAdd(QMul(t, ms), "1/1000000000000")))>>
      ELSE <<Ok("C05.meannll", QNear(e.v, nl, QMul(t, QAdd(QN(10), QAbs(nl)))))>>

JudgeSample(e, g) ==
  LET M == MomOf(g) n == Dim(g) IN
  IF Proper(g) # "pd" \/ ~M.ok THEN <<Skip("C05.sample")>> ELSE
  IF e.exc # "" \/ ~WfM(e.v, e.n, n) THEN <<Ok("C05.sample", FALSE)>> ELSE
  << Ok("C05.sample", e.n < 100 \/ SampleOk(e.v, M.m, M.S)),
     Ok("C05.samplerepeat", WfM(e.again, e.n, n) /\ MNear(e.v, e.again, QMul(Rel, QAdd(VMax(M.m), QAdd("1", MMax(M.S)))))),
     Ok("C05.independent", e.n < 2 \/ e.v[1] # e.v[2]),
     Ok("C05.uncorrelated", e.n < 400 \/ Uncorrelated(e.v, M.m, M.S)) >>

(* C04 *)
LowerTri(A) == \A i, j \in 1..Len(A) : j > i => A[i][j] = "0"
JudgeLin(e) ==
  LET n == Len(e.A)
      J == IF Has(e, "jit") THEN e.jit ELSE "0"
      A == IF e.op = "validate" THEN e.A ELSE MAdd(Sym(e.A), MScale(J, Eye(n)))
      keep == <<Ok("C04.ArgumentKept", e.A = e.after /\ (Has(e, "b") => e.b = e.bafter))>>
      sz == MMax(A)
  IN  keep \o
  CASE e.op = "symmetrize" ->
        (IF e.exc # "" \/ ~WfM(e.v, n, n) THEN <<Ok("C04.symmetrize", FALSE)>>
         ELSE <<Ok("C04.symmetrize", MNear(e.v, Sym(e.A), QMul(Rel, sz)) /\ e.v = MT(e.v))>>)
    [] e.op = "validate" ->
        LET c == PDClass(A, "1/1000000000") IN
        IF c = "edge" THEN <<Skip("C04.validate")>>
        ELSE <<Ok("C04.validate", IF c = "pd" THEN e.exc = "" ELSE e.exc = "LinAlgError")>>
    [] e.op = "chol" ->
        LET c == PDClass(A, "1/1000000000000") IN
        IF c = "edge" THEN <<Skip("C04.chol")>>
        ELSE IF c = "notpd" THEN <<Ok("C04.cholrefuse", e.exc = "LinAlgError")>>
        ELSE IF e.exc # "" \/ ~WfM(e.v, n, n) THEN <<Ok("C04.chol", FALSE)>>
        ELSE LET L == IF e.lower THEN e.v ELSE MT(e.v) IN
             <<Ok("C04.chol", LowerTri(L) /\ (\A i \in 1..n : QLt("0", L[i][i]))
                              /\ \A i, j \in 1..n : QLe(QSq(QSub(Dot(L[i], L[j]), A[i][j])),
                                    QMul(QSq("1/1000000000000"), QMul(A[i][i], A[j][j]))))>>
    [] e.op = "solve" ->
        LET I == Inverse(A, "0") m == Len(e.b[1]) IN
        IF ~I.ok \/ QLt("1000000000000", Cond(A)) THEN <<Skip("C04.solve")>>
        ELSE IF e.exc # "" \/ ~WfM(e.v, n, m) THEN <<Ok("C04.solve", FALSE)>>
        ELSE LET X == Solve(A, e.b) IN
             <<Ok("C04.solve", MNear(X, e.v, QAdd(QMul(QMul(QN(4 * n), I.e), MMax(e.b)), QMul("1/1000000000", MMax(X)))))>>

SoundNew(e, regs) == \A a \in Operands(e) : NatOf(regs[a]).ok

Step(s, e, run) ==
  IF Makes(e) THEN
    LET sound == SoundNew(e, s.regs)
        g     == IF sound THEN New(e, s.regs) ELSE FactorOf(1)
        n     == IF e.exc = "" THEN Len(e.show.mean) ELSE 0
        \* a result the specification cannot follow (an ill-conditioned operand) re-enters as what the code shows
        g2    == IF sound THEN g ELSE IF e.exc = "" /\ WfShow(e.show, n) THEN Natural(e.show.precision, e.show.shift) ELSE FactorOf(1)
        keep  == IF Has(e, "given")
                 THEN <<Ok("C03.ArraysKept", e.given = e.givenafter)>>
                 ELSE IF e.op # "copy" \/ s.shown[e.a] = <<>> THEN <<>>
                 ELSE <<OkIf("C03.copy", sound /\ Calm(g), e.exc = "" /\ WfShow(e.show, Dim(g)) /\ \A a \in {"mean", "cov", "precision", "shift"} : ReadOk(s.shown[e.a], a, e.show[a]))>>
    IN  Out([regs |-> Append(s.regs, g2), shown |-> Append(s.shown, IF e.exc = "" THEN e.show ELSE <<>>)],
            JudgeNew(e, g2, sound) \o keep)
  ELSE IF e.op = "assign" THEN
    Out([s EXCEPT !.regs[e.a] = Mom(e.m, e.S), !.shown[e.a] = <<>>], <<>>)
  ELSE Out(s,
    CASE e.op = "read"   -> (IF s.shown[e.a] = <<>> THEN <<>>
                             ELSE IF e.attr = "chol" /\ e.exc # "" THEN JudgeCholRaise(e, s.regs[e.a])
                             ELSE IF e.attr = "chol" /\ Proper(s.regs[e.a]) # "pd" THEN JudgeCholRaise(e, s.regs[e.a])
                             ELSE JudgeRead(e, s.regs[e.a], s.shown[e.a]))
      [] e.op = "nll"    -> JudgeNll(e, s.regs[e.a])
      [] e.op = "nlldeg" -> JudgeNllDeg(e, s.regs[e.a])
      [] e.op = "se"     -> JudgeSe(e, s.regs[e.a])
      [] e.op = "eq"     -> JudgeEq(e, s.regs[e.a], s.regs[e.b])
      [] e.op = "metric" -> JudgeMetric(e, s.regs)
      [] e.op = "sample" -> JudgeSample(e, s.regs[e.a])
      [] e.op = "notfinite" -> <<Ok("C04.validate", e.exc = "LinAlgError")>>
      [] e.op = "arrays" -> <<Ok("C03.ArraysKept", e.given = e.now)>>
      [] e.op \in {"symmetrize", "validate", "chol", "solve"} -> JudgeLin(e))

Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
