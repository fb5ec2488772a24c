-------------------------------- MODULE Metrics --------------------------------
(* Scores of a list of beliefs (m, S) against true states: root mean squared     *)
(* error (its square) and mean negative log density.                             *)
EXTENDS Gauss
Part(g, idx)  == [m |-> Force([i \in 1..Len(idx) |-> g.m[idx[i]]]), S |-> Force([i \in 1..Len(idx) |-> [j \in 1..Len(idx) |-> g.S[idx[i]][idx[j]]]])]
PartV(x, idx) == Force([i \in 1..Len(idx) |-> x[idx[i]]])
Sq(g, x)      == LET y == VSub(g.m, x) IN Dot(y, y)
Nl(g, x)      == LET y == VSub(x, g.m) IN R(QDiv(QAdd(QAdd(QMul(QN(Len(x)), Ln2Pi), QLn(Det(g.S))), Dot(y, MVec(MInv(g.S), y))), "2"))
RECURSIVE Over(_, _, _, _)
Over(F(_, _), gs, xs, k) == IF k = 0 THEN "0" ELSE R(QAdd(Over(F, gs, xs, k - 1), F(gs[k], xs[k])))
MeanOf_(F(_, _), gs, xs) == R(QDiv(Over(F, gs, xs, Len(gs)), QN(Len(gs))))
Calm1(g)      == IsPD(g.S) /\ QLe(Cond(g.S), "1000000")
Score(gs, xs) == IF \A i \in 1..Len(gs) : Calm1(gs[i]) THEN [calm |-> TRUE, ms |-> MeanOf_(Sq, gs, xs), nl |-> MeanOf_(Nl, gs, xs)]
                 ELSE [calm |-> FALSE, ms |-> "0", nl |-> "0"]
ScoreTol == "1/100000"
RmseIs(v, s, t) == QLe("0", v) /\ QLe(QAbs(QSub(QSq(v), s.ms)), QAdd(QMul(t, s.ms), QMul("1/10000000", t)))
NllIs(v, s, t)  == QLe(QAbs(QSub(v, s.nl)), QMul(t, QAdd("10", QAbs(s.nl))))
(* position, velocity and turn rate of the turning target *)
Parts == <<<<1, 3>>, <<2, 4>>, <<5>>>>
ScoreOf(gs, xs, idx) == Score(Force([i \in 1..Len(gs) |-> Part(gs[i], idx)]), Force([i \in 1..Len(xs) |-> PartV(xs[i], idx)]))
=============================================================================
