-------------------------------- MODULE TTrans --------------------------------
(* Calls of the moment-matching transforms (C06, C07, C08). *)
EXTENDS TraceBase, Transforms, Draws
Start(run) == <<>>
Rel8 == "1/100000000"
WfOut(e, n, k) == WfV(e.mean, k) /\ WfM(e.cov, k, k) /\ WfM(e.cross, n, k)
Floor  == "1/1000000000000"                              \* 1e-12 of the state's own size, against cancellation to zero

JudgeTT(e) ==
  LET n == Len(e.m) T == Taylor(e.f, e.m, e.S, e.t, e.u) k == Len(T.mean) IN
  IF e.exc # "" \/ ~WfOut(e, n, k) THEN <<Ok("C06.taylor", FALSE)>> ELSE
  LET J == RowSum(FJac(e.f, e.m, e.t, e.u)) IN
  << Ok("C06.mean",  VNear(e.mean, T.mean, QMul("1/10000000000", QAdd(T.sizem, "1")))),
     Ok("C06.cov",   MNear(e.cov, T.cov, QAdd(QMul(Rel8, QMul(QSq(J), MMax(e.S))), Floor))),
     Ok("C06.cross", MNear(e.cross, T.cross, QAdd(QMul(Rel8, QMul(J, MMax(e.S))), Floor))) >>
JudgeJac(e) ==
  LET J == FJac(e.f, e.m, e.t, e.u) IN
  IF e.exc # "" \/ ~WfM(e.J, Len(J), Len(e.m)) THEN <<Ok("C06.numjac", FALSE)>>
  ELSE <<Ok("C06.numjac", MNear(e.J, J, QMul("1/100000", QAdd("1", MMax(J)))))>>

(* the points at which the function was evaluated, the centre first *)
Dist(x, m)   == VMax(VSub(x, m))
Centre(pts, m) == CHOOSE i \in 1..Len(pts) : \A j \in 1..Len(pts) : QLe(Dist(pts[i], m), Dist(pts[j], m))
Reorder(s, i) == Force(<<s[i]>> \o SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
RECURSIVE DropDup(_, _, _)
DropDup(s, keep, k) == IF k > Len(s) THEN keep
                       ELSE IF \E j \in 1..Len(keep) : s[keep[j]] = s[k] THEN DropDup(s, keep, k + 1)
                       ELSE DropDup(s, Append(keep, k), k + 1)
JudgeUT(e) ==
  LET n == Len(e.m)
      c == PDClass(e.S, "1/1000000000")
      cj == PDClass(MAdd(e.S, MScale(QMul("3", Jit), Eye(n))), "1/1000000000")
      k == Len(e.mean)
  IN
  IF c # "pd" /\ cj = "notpd" THEN <<Ok("C07.refuses", e.exc = "LinAlgError")>> ELSE
  IF c # "pd" /\ cj = "edge" THEN <<Skip("C07.edge")>> ELSE
  IF e.exc # "" \/ ~WfOut(e, n, k) \/ Len(e.pts) < 2 * n + 1 THEN <<Ok("C07.unscented", FALSE)>> ELSE
  LET idx  == IF Len(e.pts) = 2 * n + 1 THEN [i \in 1..(2*n+1) |-> i] ELSE DropDup(e.pts, <<>>, 1) IN
  IF Len(idx) # 2 * n + 1 THEN <<Ok("C07.points", FALSE)>> ELSE
  LET pts0 == Force([i \in 1..(2*n+1) |-> e.pts[idx[i]]])
      val0 == Force([i \in 1..(2*n+1) |-> e.vals[idx[i]]])
      ci   == Centre(pts0, e.m)
      pts  == Reorder(pts0, ci)
      vals == Reorder(val0, ci)
      sc   == UTScale(n, e.par)
      mag  == QAdd(VMax(e.m), QMul(QAdd("1", sc), QAdd(MMax(e.S), Floor)))
      abs9 == QMul("1/1000000000000", QAdd(VMax(e.m), QSqrt(QMul(sc, QAdd(MMax(e.S), Jit)))))
      dx   == Force([i \in 1..(2*n) |-> VSub(pts[i+1], e.m)])
      one  == Force([i \in 1..(2*n) |-> "1"])
      gram == WOuter(one, dx, dx, 2 * n)
      want == MScale(QMul("2", sc), e.S)
      slackJ == IF c = "pd" THEN "0" ELSE QMul(QMul("4", Jit), QMul("2", sc))
      T    == UTMoments(n, e.par, pts, vals)
      noise == QMul("32", QMul(abs9, QAdd(abs9, QMul(QInt(2*n), VMax(Force([i \in 1..Len(dx) |-> VMax(dx[i])]))))))
  IN
  << Ok("C07.centre", VNear(pts[1], e.m, abs9)),
     Ok("C07.symmetric", \A i \in 1..(2*n) : \E j \in 1..(2*n) : VNear(VAdd(dx[i], dx[j]), ZeroV(n), QMul("4", abs9))),
     Ok("C07.spread", \A i, j \in 1..n : QLe(QAbs(QSub(gram[i][j], want[i][j])),
            QAdd(noise, QAdd(slackJ, QMul("1/1000000000", QSqrt(QAdd(Floor, QMul(QAbs(want[i][i]), QAbs(want[j][j])))))))) ),
     Ok("C07.mean",  VNear(e.mean, T.mean, QAdd(QMul("1/10000000000000", T.sizem), Floor))),
     Ok("C07.cov",   MNear(e.cov, T.cov, QAdd(QMul("1/10000000000000", QMul(T.size, "4")), QMul("1/10000000000", MMax(T.cov))))),
     Ok("C07.cross", MNear(e.cross, T.cross, QAdd(QMul("1/10000000000000", QMul(T.size, "4")), QMul("1/10000000000", MMax(T.cross))))) >>
  \o (IF e.f.k = "none" THEN <<>> ELSE
      \* affine functions: exact
      LET A == Taylor(e.f, e.m, e.S, e.t, e.u)
          sl == IF c = "pd" THEN "0" ELSE QMul(QMul("4", Jit), QSq(QAdd("1", RowSum(e.f.A))))
          er == QAdd(sl, QMul("1/10000000000000", QMul(T.size, "4"))) IN
      << Ok("C07.affinemean", VNear(e.mean, A.mean, QAdd(QMul("1/100000000000", QAdd("1", T.sizem)), sl))),
         Ok("C07.affinecov",  MNear(e.cov, A.cov, QAdd(er, QMul("1/1000000000", MMax(A.cov))))),
         Ok("C07.affinecross", MNear(e.cross, A.cross, QAdd(er, QMul("1/1000000000", MMax(A.cross))))) >>)

JudgeMC(e) ==
  LET n == Len(e.m) K == e.K k == Len(e.mean) IN
  IF e.exc # "" \/ ~WfOut(e, n, k) \/ Len(e.pts) # K THEN <<Ok("C08.montecarlo", FALSE)>> ELSE
  LET ym == MeanOf(e.vals) xm == MeanOf(e.pts)
      C  == CoMom(e.vals, ym, e.vals, ym)
      X  == CoMom(e.pts, xm, e.vals, ym)
      my == VMax(Force([i \in 1..K |-> VMax(e.vals[i])]))
      mx == VMax(Force([i \in 1..K |-> VMax(e.pts[i])]))
  IN
  << Ok("C08.mean",  VNear(e.mean, ym, QMul("1/100000000000", my))),
     Ok("C08.cov",   MNear(e.cov, C, QMul("1/100000000000", QSq(my)))),
     Ok("C08.cross", MNear(e.cross, X, QMul("1/100000000000", QMul(QAdd(mx, my), QAdd(mx, my))))),
     Ok("C08.draws", K < 200 \/ (SampleOk(e.pts, e.m, e.S) /\ Uncorrelated(e.pts, e.m, e.S))),
     Ok("C08.distinct", K < 2 \/ (e.pts[1] # e.pts[2] /\ e.pts[1] # e.pts[K])),
     \* a spread that floating point resolves: no draw comes twice (a block of samples is not used again)
     OkIf("C08.fresh", \E a \in 1..n : QLt(QMul("1/100", QSq(e.m[a])), e.S[a][a]), Cardinality({e.pts[i] : i \in 1..K}) = K),
     Ok("C08.repeatable", e.again = e.mean) >>

Step(s, e, run) ==
  Out(s, (CASE e.op = "tt" -> JudgeTT(e) [] e.op = "jac" -> JudgeJac(e) [] e.op = "ut" -> JudgeUT(e) [] e.op = "mc" -> JudgeMC(e))
         \o (IF Has(e, "kept") THEN <<Ok(e.tag \o ".StateKept", e.kept)>> ELSE <<>>))
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
