---------------------------------- MODULE Report ----------------------------------
(* What the printed report says: every line is about the stored runs that match its  *)
(* criteria, and shows the mean and the population standard deviation of their RMSE  *)
(* and of their NLL.  A row is a record of numerals and names with the scores in     *)
(* the columns RMSE and NLL; criteria are a record of some of the other columns.     *)
EXTENDS Naturals, Sequences, TLC, Q
Matches(row, crit) == \A c \in DOMAIN crit : row[c] = crit[c]
Sel(rows, crit)    == SelectSeq(rows, LAMBDA r : Matches(r, crit))
Col(rows, c)       == Force([i \in 1..Len(rows) |-> rows[i][c]])
RECURSIVE Sum(_, _)
Sum(xs, k)         == IF k = 0 THEN "0" ELSE QAdd(Sum(xs, k - 1), xs[k])
Mean(xs)           == QDiv(Sum(xs, Len(xs)), QInt(Len(xs)))
Var(xs)            == LET m == Mean(xs) IN Mean(Force([i \in 1..Len(xs) |-> QSq(QSub(xs[i], m))]))
(* a shown number stands for all that print like it: v up to h *)
Shows(s, x)        == IsQ(s.v) /\ QLe(QAbs(QSub(s.v, x)), s.h)
ShowsSd(s, x)      == IsQ(s.v) /\ QLe("0", s.v) /\ QLe(QAbs(QSub(s.v, QSqrt(x))), s.h)
LineIs(rows, crit, score, line) ==
  LET xs == Col(Sel(rows, crit), score) IN Len(xs) > 0 /\ Shows(line.mean, Mean(xs)) /\ ShowsSd(line.sd, Var(xs))
(* the sections of the report: which runs the baseline and the other lines are about *)
First == [ungm |-> "1", bott |-> "1", l96 |-> "0"]
Last  == [ungm |-> "50", bott |-> "50", l96 |-> "9", iungm |-> "50", ibott |-> "50", il96 |-> "10"]
EP(sec) == sec \in {"ungm", "bott", "l96"}
(* lab: what the heading and the line itself say; hid: the settings the report does not name *)
Criteria(sec, lab, hid) ==
  IF ~EP(sec) THEN hid @@ [Iter |-> Last[sec]]
  ELSE LET about == IF sec = "l96" THEN [dim |-> lab.dim]
                    ELSE IF sec = "bott" THEN [Quantity |-> lab.quantity, Transform |-> lab.transform] ELSE [Transform |-> lab.transform]
       IN IF lab.power = "base" THEN about @@ [Power |-> "1", Damping |-> "1", Iter |-> First[sec]] @@ hid
          ELSE about @@ [Power |-> lab.power, Iter |-> Last[sec]] @@ hid
(* values an entry lies outside of: 1.5 interquartile ranges from the quartiles (linear interpolation) *)
Outlying(x, lo, hi) == QLt(x, lo) \/ QLt(hi, x)
=============================================================================
