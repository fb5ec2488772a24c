------------------------------- MODULE EPRules -------------------------------
(* The damped power-EP rules of one node.  A node's beliefs are a record          *)
(*   [marg, fwd, meas, back]                                                      *)
(* of Gaussians; p is the power, d the damping.                                   *)
EXTENDS Estim
FreshBeliefs(n) == [marg |-> MarginalOf(n), fwd |-> FactorOf(n), meas |-> FactorOf(n), back |-> FactorOf(n)]
Inv1(p) == QDiv("1", p)

(* what an update hands to its projection *)
FwdCavity(prev, p)  == Div(prev.marg, Pow(prev.back, Inv1(p)))
MeasCavity(b)       == Div(b.marg, b.meas)
BackCavity(b)       == Div(b.marg, b.back)
NextCavity(next, p) == Div(next.marg, Pow(next.fwd, Inv1(p)))

(* the beliefs after an update whose projection answered g *)
ApplyFwd(b, g, p, d) ==
  LET F == Mul(Pow(b.fwd, QSub("1", d)), Pow(g, d))
  IN  [b EXCEPT !.fwd = F, !.marg = Mul(b.marg, Pow(Div(F, b.fwd), Inv1(p)))]
ApplyFactor(b, which, g, p, d) ==
  LET ratio == Div(g, b.marg)
      f == Mul(b[which], Pow(ratio, d))
      m == Mul(b.marg, Pow(ratio, QDiv(d, p)))
  IN  IF which = "meas" THEN [b EXCEPT !.meas = f, !.marg = m] ELSE [b EXCEPT !.back = f, !.marg = m]
Apply(b, kind, g, p, d) == IF kind = "fwd" THEN ApplyFwd(b, g, p, d) ELSE ApplyFactor(b, kind, g, p, d)

(* "commit", "refuse", or "edge" when rounding decides *)
Verdict(b, kind, g, p, d) ==
  LET c == Proper(g) IN
  IF c # "pd" THEN (IF c = "notpd" THEN "refuse" ELSE "edge") ELSE
  IF ~NatOf(g).ok THEN "edge" ELSE
  LET m == Proper(Apply(b, kind, g, p, d).marg) IN
  IF m = "pd" THEN "commit" ELSE IF m = "notpd" THEN "refuse" ELSE "edge"
Update(b, kind, g, p, d) == IF Verdict(b, kind, g, p, d) = "commit" THEN Apply(b, kind, g, p, d) ELSE b

(* the belief a node's factors stand for *)
Belief(b, init, p) == Mul(init, Pow(Mul(Mul(b.fwd, b.meas), b.back), Inv1(p)))
=============================================================================
