--------------------------------- MODULE TSched ---------------------------------
(* Recorded update calls of real passes against the plan (C26), one at a time.    *)
(* st.left: the moves left of the pass under way; st.cut: an update has raised.   *)
EXTENDS TraceBase
S == INSTANCE Sched WITH MaxN <- 0, pass <- st, n <- st, left <- st, done <- st, cut <- FALSE
Rest(l, c) == [left |-> l, cut |-> c]
Start(run) == Rest(<<>>, FALSE)
Step(s, e, run) ==
  CASE e.op = "begin" -> Out(Rest(S!Plan(e.pass, e.N), FALSE), <<>>)
    [] e.op = "call"  -> IF s.cut \/ Len(s.left) = 0 THEN Out(s, <<Ok("C26.extra", FALSE)>>)
                         ELSE Out(Rest(Tail(s.left), FALSE), <<Ok("C26.order", s.left[1] = <<e.i, e.k>>)>>)
    [] e.op = "raise" -> Out(Rest(s.left, TRUE), <<>>)
    [] e.op = "end"   ->
         Out(Rest(<<>>, FALSE),
             <<IF s.cut THEN Ok("C26.raised", e.exc = e.expect)           \* the caller learns of it; no call came after it
               ELSE Ok("C26.complete", Len(s.left) = 0 /\ e.exc = ""),
               Ok("C26.list", e.kept)>>)
Init == TraceInit(Start)
Next == TraceNext(Step, Start)
=============================================================================
