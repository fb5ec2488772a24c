-------------------------------- MODULE MatSelf --------------------------------
(* The evaluators in java/ agree with the definitions in TLA+ on sampled matrices, and the elementary           *)
(* functions satisfy the identities that pin them down.                                                         *)
EXTENDS Mat, Integers, TLC
Rat(k)  == QDiv(QInt(((k * 7919) % 41) - 20), QInt(1 + ((k * 1047) % 7)))
M(n, m, z) == Force([i \in 1..n |-> [j \in 1..m |-> Rat(z + 17 * i + 3 * j)]])
Near(a, b) == QLe(QAbs(QSub(a, b)), QDiv("1", "1000000000000000000000000000000000000000"))
Zig == {Rat(k) : k \in 1..30}
VARIABLE s
Init == s \in 1..60
Next == UNCHANGED s
LinAlg ==
  \A n \in 1..4 : LET A == M(n, n, s) B == M(n, 2, s + 5) S == MAdd(MMul(A, MT(A)), Eye(n)) IN
    /\ XMMul(A, B) = DMMul(A, B)
    /\ XMVec(A, A[1]) = DMVec(A, A[1])
    /\ XDot(A[1], A[n]) = DDot(A[1], A[n])
    /\ XSum(A[1]) = DSum(A[1])
    /\ XSolve(A, B) = DSolve(A, B)
    /\ (XSolve(A, B) # <<>> => MMul(A, XSolve(A, B)) = B)
    /\ XPivots(A) = DPivots(A) /\ XPivots(S) = DPivots(S) /\ Len(XPivots(S)) = n
Elem ==
  LET x == Rat(s) y == Rat(s + 9) IN
    /\ Near(QAdd(QSq(QSin(x)), QSq(QCos(x))), "1")
    /\ Near(QSin(QAdd(x, y)), QAdd(QMul(QSin(x), QCos(y)), QMul(QCos(x), QSin(y))))
    /\ Near(QMul(QExp(x), QExp(QNeg(x))), "1")
    /\ (QLt("0", x) => Near(QExp(QLn(x)), x))
    /\ (QLe("0", x) => Near(QSq(QSqrt(x)), x))
    /\ (x # "0" \/ y # "0" => LET r == QSqrt(QAdd(QSq(x), QSq(y))) a == QAtan2(y, x) IN
          /\ Near(QMul(r, QCos(a)), x) /\ Near(QMul(r, QSin(a)), y)
          /\ QLe(QAbs(a), QAdd(QPi, "1/1000000000000")))
    /\ Near(QSin(QDiv(QPi, "6")), "1/2") /\ Near(QMul("4", QAtan2("1", "1")), QPi)
    /\ QAdd(x, y) = QSub(x, QNeg(y)) /\ (y # "0" => QMul(QDiv(x, y), y) = x)
    /\ QLe(QAbs(QSub(QRnd(QDiv(x, "3")), QDiv(x, "3"))), QDiv(QAbs(x), "1000000000000000000000000000000000000000"))
=============================================================================
