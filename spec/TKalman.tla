-------------------------------- MODULE TKalman --------------------------------
(* Filters and smoothers on recorded data (C15 to C19).  Each step of the real     *)
(* recursion is judged from the real previous step, so errors do not pile up.      *)
EXTENDS TraceBase, Kalman
Start(run) == <<>>
WfMom(d, n) == WfV(d.m, n) /\ WfM(d.S, n, n)
Near(tag, e, x) ==
  IF x.k # "ok" THEN <<Skip(tag)>>
  ELSE <<Ok(tag \o ".mean", VNear(e.m, x.m, x.tm)), Ok(tag \o ".cov", MNear(e.S, x.S, x.tS))>>
RECURSIVE Cat(_, _, _)
Cat(F(_), i, k) == IF i > k THEN <<>> ELSE F(i) \o Cat(F, i + 1, k)
Time(e, i) == QAdd(e.t0, QMul(QInt(i - 1), e.dt))
ShapeOk(tag, e, res) == <<Ok(tag \o ".length", e.exc = "" /\ Len(res) = Len(e.ys) /\ \A i \in 1..Len(res) : WfMom(res[i], Len(e.prior.m)))>>
Good(j) == j[1][2] = "ok"
(* a whole filter and smoother by the specification; MdF(i), MdH(i): the model of the step into i *)
RECURSIVE AllFilter(_, _, _, _, _)
AllFilter(e, MdOf(_), i, g, acc) ==
  IF i > Len(e.ys) THEN acc ELSE
  LET x == FilterStep(MdOf(i), e.tr, e.mr, g, e.ys[i], Time(e, i), e.u) IN
  IF x.k # "ok" THEN <<>> ELSE LET y == Force(AsMom(x)) IN AllFilter(e, MdOf, i + 1, y, Force(Append(acc, y)))
(* refusing with LinAlgError is right exactly when the specification cannot get through either *)
Shape(tag, e, res) == IF e.exc = "LinAlgError" /\ Len(AllFilter(e, LAMBDA i : e.md, 1, e.prior, <<>>)) < Len(e.ys)
                      THEN <<Skip(tag \o ".length")>> ELSE ShapeOk(tag, e, res)

Filter(tag, e, res) ==
  LET s == Shape(tag, e, res) IN IF ~Good(s) THEN s ELSE
  s \o Cat(LAMBDA i : Near(tag, res[i], FilterStep(e.md, e.tr, e.mr, IF i = 1 THEN e.prior ELSE res[i-1], e.ys[i], Time(e, i), e.u)), 1, Len(res))
Smoother(tag, e, fil, res) ==
  LET s == Shape(tag, e, res) N == Len(res) IN IF ~Good(s) \/ ~Good(Shape(tag, e, fil)) THEN s ELSE
  s \o <<Ok(tag \o ".last", N = 0 \/ res[N] = fil[N])>>
    \o Cat(LAMBDA i : Near(tag, res[i], Smooth(e.md, e.tr, fil[i], res[i+1], Time(e, i + 1), e.u)), 1, N - 1)

(* the same recursions on a chain of EP nodes: the initial N(0, 1e10) of each node is a vague extra factor, and *)
(* beliefs are combined by their natural parameters: precisions of size P are added and subtracted               *)
VagueOf(m, S, P) ==
  LET n == QInt(Len(m)) s == RowSum(S) z == R(QAdd(s, VMax(m))) IN
  R(QAdd(QMul("1/1000000000", QMul(s, z)), QMul(QMul(QMul("1024", n), Eps), QMul(QAdd("1", QMul(s, P)), QAdd("1", z)))))
VagueAt(m, S) == LET I == MInv(S) IN VagueOf(m, S, IF I = <<>> THEN "1000000" ELSE RowSum(I))
Loose(x) == IF x.k # "ok" THEN x ELSE ResOk(x.m, x.S, x.tm, x.tS)
NearV(tag, e, x, P) == IF x.k # "ok" THEN <<Skip(tag)>> ELSE
  Near(tag, e, Loose(Widen(x, VagueOf(x.m, x.S, P), QAdd("1", QMul(P, RowSum(x.S))))))
PrecSize(S) == LET I == MInv(S) IN IF I = <<>> THEN "1000000" ELSE RowSum(I)
EPFilter(tag, e, res) ==
  LET s == Shape(tag, e, res) IN IF ~Good(s) THEN s ELSE
  s \o Cat(LAMBDA i : Near(tag, res[i], Loose(FilterStepX(e.md, e.tr, e.mr, IF i = 1 THEN e.prior ELSE res[i-1], e.ys[i], Time(e, i), e.u, VagueAt))), 1, Len(res))
EPSmoother(tag, e, fil, res) ==
  LET s == Shape(tag, e, res) N == Len(res) IN IF ~Good(s) \/ ~Good(Shape(tag, e, fil)) THEN s ELSE
  s \o Near(tag \o ".last", res[N], [k |-> "ok", m |-> fil[N].m, S |-> fil[N].S, tm |-> "0", tS |-> "0"])
    \o Cat(LAMBDA i : NearV(tag, res[i], Smooth(e.md, e.tr, fil[i], res[i+1], Time(e, i + 1), e.u), QAdd(PrecSize(fil[i].S), PrecSize(res[i+1].S))), 1, N - 1)
Agree(tag, a, b) == <<OkIf(tag, \A i \in 1..Len(b) : QLe(MMax(b[i].S), "1000"), Len(a) = Len(b) /\ \A i \in 1..Len(a) :
      LET v == QMul("1/1000000", QSq(QAdd("1", QAdd(MMax(b[i].S), VMax(b[i].m))))) IN VNear(a[i].m, b[i].m, v) /\ MNear(a[i].S, b[i].S, v))>>

(* iterated filter *)
Iekf(e) ==
  LET s == Shape("C18.iekf", e, e.res) IN IF ~Good(s) THEN s ELSE
  s \o Cat(LAMBDA i :
    LET q == Predict(e.md, e.tr, IF i = 1 THEN e.prior ELSE e.res[i-1], Time(e, i), e.u) IN
    IF q.k # "ok" THEN <<Skip("C18.predict")>> ELSE
    LET z == GN(e.md, AsMom(q), e.ys[i], Time(e, i), e.u, q.m, e.num)
        t == QMul("1/100000000", QMul(QAdd("1", QAdd(VMax(z.m), QAdd(VMax(e.ys[i]), RowSum(q.S)))), QAdd("1", MMax(q.S)))) IN
    <<Ok("C18.mean", VNear(e.res[i].m, z.m, t)), Ok("C18.cov", MNear(e.res[i].S, z.S, t))>>, 1, Len(e.res))

RECURSIVE AllSmooth(_, _, _, _, _)
AllSmooth(e, MdOf(_), fil, i, acc) ==
  IF i = 0 THEN acc ELSE
  LET x == Smooth(MdOf(i + 1), e.tr, fil[i], acc[1], Time(e, i + 1), e.u) IN
  IF x.k # "ok" THEN <<>> ELSE AllSmooth(e, MdOf, fil, i - 1, Force(<<AsMom(x)>> \o acc))
AllSteps(e, MdOf(_)) ==
  LET fil == AllFilter(e, MdOf, 1, e.prior, <<>>) N == Len(e.ys) IN
  IF Len(fil) < N \/ N = 0 THEN <<>> ELSE AllSmooth(e, MdOf, fil, N - 1, <<fil[N]>>)
(* iterated smoother: the linear filter and smoother of the model linearised about the previous iterate *)
IeksNext(e, prev) ==
  AllSteps(e, LAMBDA i : [f |-> Lin(e.md.f, IF i = 1 THEN e.prior.m ELSE prev[i-1].m, Time(e, i), e.u),
                          h |-> Lin(e.md.h, prev[i].m, Time(e, i), e.u), Q |-> e.md.Q, R |-> e.md.R])
NearAll(tag, a, b) == <<Ok(tag, Len(a) = Len(b) /\ \A i \in 1..Len(a) :
      LET v == QMul("1/10000000", QSq(QAdd("1", QAdd(MMax(b[i].S), VMax(b[i].m))))) IN VNear(a[i].m, b[i].m, v) /\ MNear(a[i].S, b[i].S, v))>>
(* e.iters[k]: the result of a call with num_iter = k; e.again[j]: of one more call, with num_iter = e.order[j] *)
Ieks(e) ==
  LET ok == e.exc = "" /\ \A k \in 1..Len(e.iters) : Len(e.iters[k]) = Len(e.ys) /\ \A i \in 1..Len(e.ys) : WfMom(e.iters[k][i], Len(e.prior.m)) IN
  IF ~ok THEN <<Ok("C19.length", FALSE)>> ELSE
  LET first == AllSteps(e, LAMBDA i : e.md) IN
  (IF Len(first) = 0 THEN <<Skip("C19.first")>> ELSE NearAll("C19.first", e.iters[1], first))
  \o Cat(LAMBDA k : LET z == IeksNext(e, e.iters[k-1]) IN
         IF Len(z) = 0 THEN <<Skip("C19.next")>> ELSE NearAll("C19.next", e.iters[k], z), 2, Len(e.iters))
  \o <<Ok("C19.again", \A k \in 1..Len(e.again) : NearAll("", e.again[k], e.iters[e.order[k]])[1][2] = "ok")>>

(* single steps, called directly *)
One(tag, e, x) == IF x.k # "ok" THEN <<Skip(tag)>> ELSE IF e.exc # "" \/ ~WfMom(e.res, Len(x.m)) THEN <<Ok(tag \o ".answers", FALSE)>> ELSE Near(tag, e.res, x)

Step(s, e, run) ==
  Out(s, (CASE e.op = "filter" -> Filter("C16.filter", e, e.fil) \o (IF Has(e, "smo") THEN Smoother("C17.smoother", e, e.fil, e.smo) ELSE <<>>)
            [] e.op = "ep"     -> EPFilter("C15.filter", e, e.fil) \o EPSmoother("C15.smoother", e, e.fil, e.smo)
                                  \o Agree("C15.sweep", e.sweep, e.smo) \o Agree("C15.kalmanfilter", e.fil, e.kf) \o Agree("C15.kalmansmoother", e.smo, e.ks)
            [] e.op = "iekf"   -> Iekf(e)
            [] e.op = "ieks"   -> Ieks(e)
            [] e.op = "pred"   -> One("C16.predict", e, Predict(e.md, e.tr, e.g, e.t, e.u))
            [] e.op = "corr"   -> One("C16.correct", e, Correct(e.md, e.mr, e.g, e.y, e.t, e.u))
            [] e.op = "smooth" -> One("C17.smooth", e, Smooth(e.md, e.tr, e.g, e.next, e.t, e.u)))
         \o <<Ok(e.tag \o ".kept", e.kept)>>)
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
