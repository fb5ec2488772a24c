---------------------------------- MODULE EP ----------------------------------
(* Expectation propagation on a chain of N nodes of a scalar linear-Gaussian     *)
(* model, in exact rational arithmetic:                                          *)
(*    x_k = A x_(k-1) + B + w,  y_k = C x_k + v,  w ~ N(0, Q), v ~ N(0, R).       *)
(* Any node may be updated in any of the three ways at any time, and any         *)
(* projection may fail.  TLC explores every order up to Depth (or, with          *)
(* HistOn = FALSE and damping 1, all of the reachable states).                   *)
EXTENDS EPRules, TLC, Json
CONSTANTS N, Power, Damp, Depth, HistOn, Emits, Faults,
          Numeric     \* FALSE: schedules only, the beliefs are not computed
A == "1/2"
B == "1"
C == "2"
Qn == <<<<"1/3">>>>
Rn == <<<<"2">>>>
Y == <<"1", "-2", "3", "1/2", "0", "-1", "5/2", "4">>
Prior == Mom(<<"1">>, <<<<"3/2">>>>)
Init0 == Mom(<<"0">>, <<<<"1000">>>>)
FDesc == [k |-> "affine", x0 |-> <<"0">>, y0 |-> <<B>>, J |-> <<<<A>>>>]
HDesc == [k |-> "affine", x0 |-> <<"0">>, y0 |-> <<"0">>, J |-> <<<<C>>>>]
VARIABLES node, n, hist
vars == <<node, n, hist>>
Kinds == {"fwd", "meas", "back"}

Moments(desc, g) == LET M == MomOf(g) IN Taylor(desc, M.m, M.S, "0", "0")
(* the projection's answer: a sequence of one Gaussian, or none when it fails *)
Ans(res) == IF res.k = "ok" THEN <<Mom(res.m, res.S)>> ELSE <<>>
Project(nd, i, kind) ==
  IF kind = "fwd" THEN
    Ans(ProjTrans(Moments(FDesc, IF i = 1 THEN Prior ELSE FwdCavity(nd[i-1], Power)), Qn, Power))
  ELSE IF kind = "meas" THEN
    LET c == MeasCavity(nd[i]) M == MomOf(c) IN
    IF ~M.ok THEN <<>> ELSE Ans(ProjMeas(Moments(HDesc, c), M.m, M.S, Rn, Power, <<Y[i]>>))
  ELSE IF i = N THEN <<>> ELSE
    LET c == BackCavity(nd[i]) M == MomOf(c) IN
    IF ~M.ok THEN <<>> ELSE Ans(ProjBack(Moments(FDesc, c), M.m, M.S, Qn, Power, NextCavity(nd[i+1], Power), <<nd[i+1].marg>>))
After(nd, i, kind) == IF ~Numeric THEN nd ELSE
  LET a == Project(nd, i, kind) IN
  IF a = <<>> THEN nd ELSE Force([nd EXCEPT ![i] = Force(Update(nd[i], kind, a[1], Power, Damp))])

Fresh == [FreshBeliefs(1) EXCEPT !.marg = Init0]
Init == node = [i \in 1..N |-> Fresh] /\ n = 0 /\ hist = <<>>
Log(i, k, o) == hist' = IF HistOn THEN Append(hist, <<i, k, o>>) ELSE hist
Upd(i, k)  == \E x \in {After(node, i, k)} : node' = x /\ n' = (IF HistOn THEN n + 1 ELSE 0) /\ Log(i, k, "ok")
Fail(i, k) == Faults /\ node' = node /\ n' = (IF HistOn THEN n + 1 ELSE 0) /\ Log(i, k, "fail")
Next == (HistOn => n < Depth) /\ \E i \in 1..N, k \in Kinds : Upd(i, k) \/ Fail(i, k)
Spec == Init /\ [][Next]_vars
Fair == \A i \in 1..N, k \in Kinds : WF_vars(Upd(i, k))

(* every marginal is its initial value times its factors *)
Same(a, b) == LET x == NatOf(a) y == NatOf(b) IN x.ok /\ y.ok /\ x.P = y.P /\ x.h = y.h
Factorised == \A i \in 1..N : Same(node[i].marg, Belief(node[i], Init0, Power))
ProperAll  == \A i \in 1..N : Proper(node[i].marg) = "pd"
(* an update touches one node, and there the marginal and one factor, both or neither *)
Local == [][ \A i \in 1..N : node'[i] # node[i] =>
                /\ \A j \in (1..N) \ {i} : node'[j] = node[j]
                /\ Cardinality({k \in Kinds : node'[i][k] # node[i][k]}) <= 1 ]_vars

(* the exact posterior, from the joint information matrix; Init0 counts as one more observation of every state *)
PriorN == LET P == Prior IN ProjTrans(Moments(FDesc, P), Qn, "1")
QI == QInv(Qn[1][1])
Info == Force([i \in 1..N |-> [j \in 1..N |->
          IF i = j THEN QAdd(QAdd(IF i = 1 THEN QInv(PriorN.S[1][1]) ELSE QI, IF i < N THEN QMul(QSq(A), QI) ELSE "0"),
                             QAdd(QDiv(QSq(C), Rn[1][1]), QInv(Init0.S[1][1])))
          ELSE IF i = j + 1 \/ j = i + 1 THEN QNeg(QMul(A, QI)) ELSE "0"]])
InfoV == Force([i \in 1..N |->
          QAdd(QAdd(IF i = 1 THEN QDiv(PriorN.m[1], PriorN.S[1][1]) ELSE QMul(QI, B),
                    IF i < N THEN QNeg(QMul(QMul(A, QI), B)) ELSE "0"), QDiv(QMul(C, Y[i]), Rn[1][1]))])
PostS == MInv(Info)
PostM == MVec(PostS, InfoV)
ExactAt(nd) == \A i \in 1..N : LET M == MomOf(nd[i].marg) IN M.ok /\ M.m = <<PostM[i]>> /\ M.S = <<<<PostS[i][i]>>>>
RECURSIVE FwdPass(_, _)
FwdPass(nd, i)  == IF i > N THEN nd ELSE FwdPass(After(After(nd, i, "fwd"), i, "meas"), i + 1)
RECURSIVE BackPass(_, _)
BackPass(nd, i) == IF i = 0 THEN nd ELSE BackPass(After(nd, i, "back"), i - 1)
Sweep(nd)       == BackPass(FwdPass(nd, 1), N)
(* from every reachable state one sweep gives the posterior, and the posterior is a fixed point of each update *)
SweepExact == Damp = "1" => \E s \in {Sweep(node)} : ExactAt(s) /\ (\A i \in 1..N, k \in Kinds : \A x \in {After(s, i, k)} : x = s \/ ExactAt(x))
(* damped sweeps, many of them, from a fresh chain: within Close of the posterior (rounded arithmetic) *)
Clean(nd) == [i \in 1..N |-> [k \in DOMAIN nd[i] |-> [nd[i][k] EXCEPT !.e = "0"]]]   \* forget the rounding bound, which only grows
RECURSIVE Sweeps(_, _)
Sweeps(nd, k) == IF k = 0 THEN nd ELSE LET s == Force(Clean(Sweep(nd))) IN IF Len(s) = 0 THEN s ELSE Sweeps(s, k - 1)
Close == "1/1000000000"
NearAt(nd) == \A i \in 1..N : LET M == MomOf(nd[i].marg) IN M.ok /\ QLe(QAbs(QSub(M.m[1], PostM[i])), Close) /\ QLe(QAbs(QSub(M.S[1][1], PostS[i][i])), Close)
DampedConverges == n = 0 => \E s \in {Sweeps(node, 70)} : NearAt(s)
LiveSpec == Spec /\ Fair
Converges  == <>[]ExactAt(node)
Lvl == TLCGet("level") <= Depth

Emit == (Emits /\ n = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
