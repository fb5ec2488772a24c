---------------------------------- MODULE TSys ----------------------------------
(* Simulation (C21) and the benchmark systems (C22).                              *)
EXTENDS TraceBase, Funs, Draws
Start(run) == <<>>
Dbl == "1/1000000000000"
Big(v) == QAdd("1", VMax(v))
RECURSIVE Cat(_, _, _)
Cat(F(_), i, k) == IF i > k THEN <<>> ELSE F(i) \o Cat(F, i + 1, k)

(* one simulation: e.xs, e.ys what was returned; e.w, e.v the draws of the noise models, in order *)
SimJudge(e) ==
  LET n == Len(e.x0) N == e.N
      shaped == e.exc = "" /\ Len(e.xs) = N /\ Len(e.ys) = N /\ \A k \in 1..N : WfV(e.xs[k], n) /\ WfV(e.ys[k], e.m) IN
  IF ~shaped THEN <<Ok("C21.length", FALSE)>> ELSE
  IF Len(e.w) < N \/ Len(e.v) < N THEN <<Ok("C21.noise", FALSE)>> ELSE
  <<Ok("C21.length", TRUE), Ok("C21.kept", e.kept)>> \o
  Cat(LAMBDA k :
    LET p == IF k = 1 THEN e.x0 ELSE e.xs[k - 1]
        t == QAdd(e.t0, QMul(QInt(k - 1), e.dt))
        x == VAdd(FEval(e.f, p, t, "0"), e.w[k])
        y == VAdd(FEval(e.h, e.xs[k], t, "0"), e.v[k])
        tol(z) == QMul(Dbl, QMul(Big(z), QMul(QAdd(Big(p), QAbs(t)), Big(e.xs[k]))))
    IN <<Ok("C21.state", VNear(e.xs[k], x, tol(x))), Ok("C21.measurement", VNear(e.ys[k], y, tol(y)))>>, 1, N)
(* draws: of a noise model, or of the start of a simulation *)
DrawsOf(tag, e) == <<Ok(tag, e.exc = "" /\ WfM(e.X, e.k, Len(e.mean)) /\ SampleOk(e.X, e.mean, e.cov) /\ Uncorrelated(e.X, e.mean, e.cov)),
                   Ok("C21.independent", e.exc # "" \/ e.X[1] # e.X[2] \/ MMax(e.cov) = "0")>>
NoiseJudge(e) == DrawsOf("C21.draws", e) \o
  <<Ok("C21.one", e.exc = "" /\ WfV(e.one, Len(e.mean))), Ok("C21.shown", e.exc = "" /\ VNear(e.sm, e.mean, "0") /\ MNear(e.sc, e.cov, "0") /\ e.dim = Len(e.mean))>>

(* a function of a system, on a batch *)
EvalJudge(e) ==
  LET n == Len(e.x) ok == e.exc = "" /\ Len(e.y) = n /\ (\A i \in 1..n : WfV(e.y[i], e.m)) /\ e.one = "same" IN
  IF ~ok THEN <<Ok("C22.batch", FALSE)>> ELSE
  <<Ok("C22.batch", TRUE),
    Ok("C22." \o e.what, \A i \in 1..n : LET y == FEval(e.d, e.x[i], e.t, e.u) IN VNear(e.y[i], y, QMul("1/10000000000000", QAdd(QMul(IF e.d.k = "l96_f" THEN QSq(Big(e.x[i])) ELSE "4", Big(e.x[i])), QAdd(Big(y), QAbs(e.t))))))>>

(* the systems' constants, from their constructor arguments *)
Z(n) == ZeroM(n, n)
Wna(dt) == <<<<QDiv(QMul(dt, QSq(dt)), "3"), QDiv(QSq(dt), "2")>>, <<QDiv(QSq(dt), "2"), dt>>>>  \* integrated white noise of one axis
DiagM(v) == Force([i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE "0"]])
Rep(n, x) == Force([i \in 1..n |-> x])
SysOf(e) ==
  CASE e.sys = "ungm" -> [n |-> 1, m |-> 1, Q |-> <<<<"1">>>>, R |-> <<<<"10">>>>, m0 |-> <<"0">>, P0 |-> <<<<"5">>>>]
    [] e.sys = "toy"  -> [n |-> 1, m |-> 1, Q |-> <<<<"0">>>>, R |-> <<<<"0">>>>, m0 |-> <<"0">>, P0 |-> <<<<"1/10000">>>>]
    [] e.sys = "bot"  -> LET w == Wna(e.dt) ax(i) == IF i > 2 THEN i - 2 ELSE i pt(i) == IF i > 2 THEN 2 ELSE 1 IN
         [n |-> 4, m |-> e.sensors,
          Q |-> Force([i \in 1..4 |-> [j \in 1..4 |-> IF ax(i) = ax(j) THEN QMul(e.q[1], w[pt(i)][pt(j)]) ELSE "0"]]),
          R |-> DiagM(Rep(e.sensors, e.r[1])), m0 |-> <<"0", "0", "1", "0">>, P0 |-> DiagM(Rep(4, "1/10"))]
    [] e.sys = "bott" -> LET w == Wna(e.dt) ax(i) == (i - 1) \div 2 pt(i) == ((i - 1) % 2) + 1 IN
         [n |-> 5, m |-> e.sensors,
          Q |-> Force([i \in 1..5 |-> [j \in 1..5 |-> IF i = 5 \/ j = 5 THEN (IF i = j THEN QMul(e.dt, e.q[2]) ELSE "0")
                                                      ELSE IF ax(i) = ax(j) THEN QMul(e.q[1], w[pt(i)][pt(j)]) ELSE "0"]]),
          R |-> DiagM(Force([i \in 1..e.sensors |-> QSq(e.r[IF Len(e.r) = 1 THEN 1 ELSE i])])),
          m0 |-> <<"1000", "300", "1000", "0", QNeg(QDiv(QPi, "60"))>>, P0 |-> DiagM(<<"100", "10", "100", "10", "1/10000">>)]
    [] e.sys = "l96"  -> [n |-> e.n, m |-> e.n, Q |-> DiagM(Rep(e.n, e.q[1])), R |-> DiagM(Rep(e.n, e.r[1])), m0 |-> e.x0, P0 |-> Eye(e.n)]
Rel(A, B) == MNear(A, B, QMul(Dbl, QAdd(MMax(B), "1/1000000000000000000")))
SysJudge(e) ==
  IF e.exc # "" THEN <<Ok("C22.builds", FALSE)>> ELSE
  LET s == SysOf(e) IN
  <<Ok("C22.dims", e.sn = s.n /\ e.sm = s.m),
    Ok("C22.noise", WfM(e.Q, s.n, s.n) /\ WfM(e.R, s.m, s.m) /\ Rel(e.Q, s.Q) /\ Rel(e.R, s.R)),
    Ok("C22.init", WfV(e.m0, s.n) /\ WfM(e.P0, s.n, s.n) /\ VNear(e.m0, s.m0, QMul(Dbl, Big(s.m0))) /\ Rel(e.P0, s.P0))>>
(* Lorenz 96 starts where 999 steps of 0.05 lead from the slightly disturbed equilibrium; followed for forcings without chaos only *)
RECURSIVE Spin(_, _, _)
Spin(x, k, F) == IF k = 0 THEN x ELSE LET y == L96F(x, "1/20", F) IN IF Len(y) = 0 THEN y ELSE Spin(y, k - 1, F)
RECURSIVE Spins(_, _, _)                                \* 37 steps at a time: TLC slows down with the depth of a recursion
Spins(x, k, F) == IF k = 0 THEN x ELSE LET y == Spin(x, 37, F) IN IF Len(y) = 0 THEN y ELSE Spins(y, k - 1, F)
SpinJudge(e) ==
  IF e.exc # "" \/ ~WfV(e.v, e.n) THEN <<Ok("C22.spin", FALSE)>> ELSE
  LET x == Spins(Force([i \in 1..e.n |-> IF i = 1 THEN QAdd(e.F, "1/100") ELSE e.F]), 27, e.F) IN <<Ok("C22.spin", VNear(e.v, x, "1/1000000"))>>

Step(s, e, run) == Out(s, CASE e.op = "sim"   -> SimJudge(e)
                            [] e.op = "start" -> DrawsOf("C21.start", e)
                            [] e.op = "noise" -> NoiseJudge(e)
                            [] e.op = "eval"  -> EvalJudge(e)
                            [] e.op = "sys"   -> SysJudge(e)
                            [] e.op = "spin"  -> SpinJudge(e))
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
