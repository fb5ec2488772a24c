--------------------------------- MODULE TPost ---------------------------------
(* EP on linear-Gaussian chains against the joint posterior (C14), and the exact  *)
(* smoother of the same chains (C17).  A run has the model; its events are sweeps  *)
(* from some earlier history, each with the marginals that it left.                *)
(*   want: "exact" (this and every later sweep gives the posterior), "converged",  *)
(*   "none" (not yet)                                                              *)
EXTENDS TraceBase, Posterior
Start(run) == IF Len(run.ys) = 0 THEN <<>> ELSE Joint(run.md, run.prior, run.ys, run.ts, run.u)
WfMom(d, n) == WfV(d.m, n) /\ WfM(d.S, n, n)
Worst(S) == LET I == MInv(S) IN IF I = <<>> THEN "1000000000000" ELSE R(QMul(RowSum(S), RowSum(I)))
Tol(e, g) == R(QMul(QMul(e.tol, QAdd("1", Worst(g.S))), QAdd("1", QAdd(VMax(g.m), RowSum(g.S)))))
(* cavities that a power above 1 leaves nearly improper magnify rounding: judged only when they are clear of that *)
Clear(e) == \A i \in 1..Len(e.cavs) : \A k \in 1..Len(e.cavs[i]) : WfM(e.cavs[i][k], Len(e.cavs[i][k]), Len(e.cavs[i][k])) =>
               (PDClass(e.cavs[i][k], "1/100") # "edge")
Near(tag, e, a, b) ==
  <<OkIf(tag \o ".mean", Clear(e), \A i \in 1..Len(b) : VNear(a[i].m, b[i].m, Tol(e, b[i]))),
    OkIf(tag \o ".cov", Clear(e), \A i \in 1..Len(b) : MNear(a[i].S, b[i].S, Tol(e, b[i])))>>
Shaped(e, s, run) == e.exc = "" /\ Len(e.res) = Len(run.ys) /\ \A i \in 1..Len(e.res) : WfMom(e.res[i], Len(run.prior.m))
Judge(tag, e, s, run) ==
  IF Len(s) = 0 THEN <<Skip(tag)>> ELSE
  IF ~Shaped(e, s, run) THEN <<Ok(tag \o ".answers", FALSE)>> ELSE
  IF e.want = "none" THEN <<Skip(tag)>> ELSE Near(tag, e, e.res, s)
Step(s, e, run) == Out(s, CASE e.op = "sweep"  -> Judge("C14." \o (IF e.want = "none" THEN "running" ELSE e.want), e, s, run)
                            [] e.op = "smooth" -> Judge("C17.exact", e, s, run))
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
