---------------------------------- MODULE Sched ----------------------------------
(* The passes over a chain of N nodes, as a program counter that moves one update  *)
(* at a time.  left: the moves the pass still has to make.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxN
VARIABLES pass, n, left, done, cut     \* cut: an update raised; the pass ends there and the exception goes to the caller
vars == <<pass, n, left, done, cut>>
Passes == {"filter", "smoother", "sweep", "update"}
RECURSIVE Up(_, _, _)
Up(Per(_), i, N) == IF i > N THEN <<>> ELSE Per(i) \o Up(Per, i + 1, N)
Plan(p, N) == CASE p = "filter"   -> Up(LAMBDA i : <<<<i, "fwd">>, <<i, "meas">>>>, 1, N)
                [] p = "smoother" -> Up(LAMBDA i : <<<<N + 1 - i, "back">>>>, 1, N)
                [] p = "sweep"    -> Up(LAMBDA i : <<<<i, "fwd">>, <<i, "meas">>>>, 1, N) \o Up(LAMBDA i : <<<<N + 1 - i, "back">>>>, 1, N)
                [] p = "update"   -> Up(LAMBDA i : <<<<i, "fwd">>, <<i, "meas">>, <<i, "back">>>>, 1, N)
Init == /\ pass \in Passes /\ n \in 0..MaxN /\ done = <<>> /\ left = Plan(pass, n) /\ cut = FALSE
Move  == /\ left # <<>> /\ ~cut
         /\ done' = Append(done, Head(left)) /\ left' = Tail(left)
         /\ UNCHANGED <<pass, n, cut>>
Raise == /\ done # <<>> /\ ~cut /\ cut' = TRUE /\ UNCHANGED <<pass, n, left, done>>
Next == Move \/ Raise
Spec == Init /\ [][Next]_vars /\ WF_vars(Move)
KindsOf(p) == CASE p = "filter" -> {"fwd", "meas"} [] p = "smoother" -> {"back"} [] OTHER -> {"fwd", "meas", "back"}
At(i, k) == CHOOSE j \in 1..Len(done) : done[j] = <<i, k>>
Over == left = <<>>
(* when it is over, every node had each of the pass's updates exactly once ... *)
Once == Over => /\ \A i \in 1..n, k \in KindsOf(pass) : Cardinality({j \in 1..Len(done) : done[j] = <<i, k>>}) = 1
                /\ Len(done) = n * Cardinality(KindsOf(pass))
(* ... the forward ones before its measurement, first to last; the backward ones last to first, after all forward ones of a sweep *)
Order == Over => \A i, j \in 1..n :
  /\ (pass # "smoother" => At(i, "fwd") < At(i, "meas") /\ (i < j => At(i, "meas") < At(j, "fwd")))
  /\ (pass \in {"smoother", "sweep"} /\ i < j => At(j, "back") < At(i, "back"))
  /\ (pass = "sweep" => At(i, "meas") < At(j, "back"))
  /\ (pass = "update" => At(i, "meas") < At(i, "back") /\ (i < j => At(i, "back") < At(j, "fwd")))
(* interrupted or not, what was done is a beginning of the plan *)
Prefix == done \o left = Plan(pass, n)
Ends == <>(Over \/ cut)
=============================================================================
