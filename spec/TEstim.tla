-------------------------------- MODULE TEstim --------------------------------
(* Calls of the estimator's projections (C09, C10); the transform's own answer is in the event. *)
EXTENDS TraceBase, Estim
Start(run) == <<>>
WfMom(d, n) == WfV(d.m, n) /\ WfM(d.S, n, n)
Match(tag, e, r, n) ==
  IF r.k = "edge" THEN <<Skip(tag \o ".edge")>>
  ELSE IF r.k = "fail" THEN <<Ok(tag \o ".refuses", e.exc = "LinAlgError")>>
  ELSE IF e.exc # "" \/ ~WfMom(e.res, n) THEN <<Ok(tag \o ".answers", FALSE)>>
  ELSE << Ok(tag \o ".shape", e.res.mshape = <<n>>),
          Ok(tag \o ".mean", VNear(e.res.m, r.m, r.tm)),
          Ok(tag \o ".cov", MNear(e.res.S, r.S, r.tS)) >>
G(d) == IF Has(d, "P") THEN Natural(d.P, d.h) ELSE Mom(d.m, d.S)
Step(s, e, run) ==
  Out(s,
    (CASE e.op = "trans" ->
            Match("C09.trans", e, ProjTrans(e.T, e.Q, e.p), Len(e.T.mean))
       [] e.op = "meas" ->
            Match("C09.meas", e, ProjMeas(e.T, e.s.m, e.s.S, e.R, e.p, e.y), Len(e.s.m))
       [] e.op = "back" ->
            Match("C10.back", e, ProjBack(e.T, e.s.m, e.s.S, e.Q, e.p, G(e.cav), Force([i \in 1..Len(e.next) |-> G(e.next[i])])), Len(e.s.m)))
    \o << Ok((IF e.op = "back" THEN "C10" ELSE "C09") \o ".kept", e.kept),
          Ok((IF e.op = "back" THEN "C10" ELSE "C09") \o ".asked", e.asked) >>)
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
