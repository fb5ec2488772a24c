--------------------------------- MODULE Funs ---------------------------------
(* The functions models are made of, as descriptors d (records with a kind k),  *)
(* with their values and Jacobians.  "poly" is the drivers' family of test      *)
(* models; the others are the published equations of the benchmark systems.     *)
(* t and u are the time and the input; a function that does not depend on them  *)
(* ignores them.                                                                *)
EXTENDS Mat
TwoPi == QMul("2", QPi)

Poly(d, x, t, u) ==
  LET n == Len(x) IN
  RV([i \in 1..Len(d.c) |->
       QAdd(QAdd(d.c[i], QAdd(XDot(d.A[i], x), XDot(d.B[i], Force([j \in 1..n |-> QSq(x[j])])))),
            QAdd(QMul(d.X[i], QMul(x[1], x[n])), QAdd(QMul(d.T[i], t), QAdd(QMul(d.U[i], u), QMul(d.W[i], QMul(QAdd(t, u), x[1]))))))])
(* sin of each component, mixed *)
Trig(d, x, t, u) ==
  RV([i \in 1..Len(d.c) |-> QAdd(QAdd(d.c[i], QMul(d.T[i], t)), XDot(d.A[i], Force([j \in 1..Len(x) |-> QSin(x[j])])))])

UngmF(x, t)  == RV([i \in 1..Len(x) |-> QAdd(QAdd(QDiv(x[i], "2"), QDiv(QMul("25", x[i]), QAdd("1", QSq(x[i])))),
                                             QMul("8", QCos(QMul("6/5", t))))])
UngmH(x)     == RV([i \in 1..Len(x) |-> QDiv(QSq(x[i]), "20")])
Mod10(a) == IF QLt(a, "0") THEN QAdd(a, "10") ELSE IF QLe("10", a) THEN QSub(a, "10") ELSE a   \* for -10 <= a < 20
ToyF(x, t, u) == RV([i \in 1..Len(x) |-> QAdd(Mod10(x[i]), QAdd(QDiv(t, "10"), QDiv(u, "100")))])
ToyH(x)      == RV([i \in 1..Len(x) |-> QMul("100", x[i])])

(* constant velocity: [x, y, vx, vy] *)
BotF(x, dt)  == RV(<<QAdd(x[1], QMul(dt, x[3])), QAdd(x[2], QMul(dt, x[4])), x[3], x[4]>>)
BotH(x, sx, sy) == RV([i \in 1..Len(sx) |-> QAtan2(QSub(x[2], sy[i]), QSub(x[1], sx[i]))])

(* coordinated turn: [x, vx, y, vy, w]; at w = 0 the limit, a straight line *)
BottF(x, dt) ==
  LET w  == x[5]
      th == QMul(w, dt)
      s  == QSin(th)
      c  == QCos(th)
      sw == IF w = "0" THEN dt ELSE QDiv(s, w)                       \* sin(w dt)/w
      hs == QSin(QDiv(th, "2"))
      cw == IF w = "0" THEN "0" ELSE QDiv(QMul("2", QSq(hs)), w)     \* (1 - cos(w dt))/w
  IN  RV(<<QAdd(x[1], QSub(QMul(sw, x[2]), QMul(cw, x[4]))),
           QSub(QMul(c, x[2]), QMul(s, x[4])),
           QAdd(x[3], QAdd(QMul(cw, x[2]), QMul(sw, x[4]))),
           QAdd(QMul(s, x[2]), QMul(c, x[4])),
           w>>)
BottH(x, sx, sy) == RV([i \in 1..Len(sx) |-> QAtan2(QSub(x[3], sy[i]), QSub(x[1], sx[i]))])

(* Lorenz 96, dx_i/dt = (x_{i+1} - x_{i-2}) x_{i-1} - x_i + F, indices modulo the dimension; classical RK4 *)
L96(x, F) == LET n == Len(x) at(i) == x[1 + ((i - 1 + 4 * n) % n)] IN
  RV([i \in 1..n |-> QAdd(QSub(QMul(QSub(at(i + 1), at(i + n - 2)), at(i + n - 1)), x[i]), F)])
L96F(x, dt, F) ==
  LET k1 == L96(x, F)
      k2 == L96(VAdd(x, VScale(QDiv(dt, "2"), k1)), F)
      k3 == L96(VAdd(x, VScale(QDiv(dt, "2"), k2)), F)
      k4 == L96(VAdd(x, VScale(dt, k3)), F)
  IN  VAdd(x, VScale(QDiv(dt, "6"), VAdd(VAdd(k1, VScale("2", k2)), VAdd(VScale("2", k3), k4))))
L96H(x) == RV([i \in 1..Len(x) |-> QSq(x[i])])

FEval(d, x, t, u) ==
  CASE d.k = "poly"   -> Poly(d, x, t, u)
    [] d.k = "trig"   -> Trig(d, x, t, u)
    [] d.k = "ungm_f" -> UngmF(x, t)
    [] d.k = "ungm_h" -> UngmH(x)
    [] d.k = "toy_f"  -> ToyF(x, t, u)
    [] d.k = "toy_h"  -> ToyH(x)
    [] d.k = "bot_f"  -> BotF(x, d.dt)
    [] d.k = "bot_h"  -> BotH(x, d.sx, d.sy)
    [] d.k = "bott_f" -> BottF(x, d.dt)
    [] d.k = "bott_h" -> BottH(x, d.sx, d.sy)
    [] d.k = "l96_f"  -> L96F(x, d.dt, d.F)
    [] d.k = "l96_h"  -> L96H(x)
    [] d.k = "affine" -> VAdd(d.y0, MVec(d.J, VSub(x, d.x0)))       \* a linearisation made by the specification

(* Jacobian: exact for "poly" and "affine", otherwise a central difference in 160-bit arithmetic with step 2^-50, *)
(* whose error is of the order 2^-100 of the third derivative *)
Step50 == "1/1125899906842624"
FJac(d, x, t, u) ==
  LET n == Len(x) IN
  IF d.k = "affine" THEN d.J ELSE
  IF d.k = "poly" THEN
    RM([i \in 1..Len(d.c) |-> [j \in 1..n |->
         QAdd(QAdd(QAdd(d.A[i][j], IF j = 1 THEN QMul(d.W[i], QAdd(t, u)) ELSE "0"), QMul(QMul("2", d.B[i][j]), x[j])),
              QMul(d.X[i], QAdd(IF j = 1 THEN x[n] ELSE "0", IF j = n THEN x[1] ELSE "0")))]])
  ELSE
    LET sh(j, s) == Force([k \in 1..n |-> IF k = j THEN QAdd(x[k], s) ELSE x[k]])
        col == Force([j \in 1..n |-> VScale(QDiv("1", QMul("2", Step50)),
                  VSub(FEval(d, sh(j, Step50), t, u), FEval(d, sh(j, QNeg(Step50)), t, u)))])
    IN  MT(col)
=============================================================================
