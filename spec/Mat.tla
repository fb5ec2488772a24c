---------------------------------- MODULE Mat ----------------------------------
(* Linear algebra over the rationals.  Exact = FALSE rounds every matrix-level *)
(* result to 160 bits (trace checking); Exact = TRUE keeps it exact (design    *)
(* models, where states must compare equal).                                   *)
EXTENDS Naturals, Sequences, FiniteSets, Q, MatDef
CONSTANT Exact
R(q)   == IF Exact THEN q ELSE QRnd(q)
RV(v)  == IF Exact THEN Force(v) ELSE Force([i \in 1..Len(v) |-> QRnd(v[i])])
RM(A)  == IF Exact THEN Force(A) ELSE Force([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> QRnd(A[i][j])]])

(* evaluated by java/Mat.java *)
XSum(v)      == DSum(v)
XDot(a, b)   == DDot(a, b)
XMVec(A, x)  == DMVec(A, x)
XMMul(A, B)  == DMMul(A, B)
XSolve(A, B) == DSolve(A, B)
XPivots(A)   == DPivots(A)

Sum(v)       == R(XSum(v))
Dot(a, b)    == R(XDot(a, b))
MVec(A, x)   == RV(XMVec(A, x))
MMul(A, B)   == RM(XMMul(A, B))

VAdd(a, b)   == RV([i \in 1..Len(a) |-> QAdd(a[i], b[i])])
VSub(a, b)   == RV([i \in 1..Len(a) |-> QSub(a[i], b[i])])
VScale(c, a) == RV([i \in 1..Len(a) |-> QMul(c, a[i])])
MAdd(A, B)   == RM([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> QAdd(A[i][j], B[i][j])]])
MSub(A, B)   == RM([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> QSub(A[i][j], B[i][j])]])
MScale(c, A) == RM([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> QMul(c, A[i][j])]])
MT(A)        == IF Len(A) = 0 THEN A ELSE Force([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
Eye(n)       == Force([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]])
ZeroV(n)     == Force([i \in 1..n |-> "0"])
ZeroM(n, m)  == Force([i \in 1..n |-> [j \in 1..m |-> "0"]])
Outer(a, b)  == RM([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> QMul(a[i], b[j])]])
Diag(A)      == Force([i \in 1..Len(A) |-> A[i][i]])
Sym(A)       == RM([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> QDiv(QAdd(A[i][j], A[j][i]), "2")]])
Quad(A, S)   == MMul(MMul(A, S), MT(A))              \* A S A'

Solve(A, B)  == LET X == XSolve(A, B) IN IF X = <<>> THEN <<>> ELSE RM(X)
MInv(A)      == Solve(A, Eye(Len(A)))                 \* <<>> when singular
Singular(A)  == XSolve(A, Eye(Len(A))) = <<>>

RECURSIVE MaxTo(_, _)
MaxTo(v, k)  == IF k = 0 THEN "0" ELSE QMax(MaxTo(v, k - 1), QAbs(v[k]))
VMax(v)      == MaxTo(v, Len(v))                      \* largest |entry|
MMax(A)      == VMax(Force([i \in 1..Len(A) |-> VMax(A[i])]))
RowSum(A)    == VMax(Force([i \in 1..Len(A) |-> Sum([j \in 1..Len(A[i]) |-> QAbs(A[i][j])])]))
Cond(A)      == LET B == MInv(A) IN IF B = <<>> THEN "1000000000000000000000000000000" ELSE R(QMul(RowSum(A), RowSum(B)))
RECURSIVE ProdTo(_, _)
ProdTo(v, k) == IF k = 0 THEN "1" ELSE R(QMul(ProdTo(v, k - 1), v[k]))
Det(A)       == LET p == XPivots(A) IN ProdTo(p, Len(p))   \* of a positive definite matrix

IsPD(A)      == LET p == XPivots(A) IN \A i \in 1..Len(p) : QLt("0", p[i])

(* A is a matrix the implementation knows up to the relative error t of its diagonal: is its Cholesky sure to  *)
(* succeed ("pd"), sure to fail ("notpd"), or is that decided by rounding ("edge")?                            *)
ShiftDiag(A, t) == RM([i \in 1..Len(A) |-> [j \in 1..Len(A) |->
                      IF i = j THEN QAdd(A[i][i], QMul(t, QAbs(A[i][i]))) ELSE A[i][j]]])
PDClass(A, t) == IF IsPD(ShiftDiag(A, QNeg(t))) THEN "pd"
                 ELSE IF ~IsPD(ShiftDiag(A, t)) THEN "notpd" ELSE "edge"
=============================================================================
