-------------------------------- MODULE MatDef --------------------------------
(* Vectors (sequences of numerals) and matrices (sequences of rows): the       *)
(* definitions.  Mat.tla re-exports them under the names used elsewhere, where *)
(* java/Mat.java evaluates the costly ones; MatSelf.tla checks that the two    *)
(* agree.                                                                      *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE Q

RECURSIVE DSumTo(_, _)
DSumTo(v, k)  == IF k = 0 THEN "0" ELSE QAdd(DSumTo(v, k - 1), v[k])
DSum(v)       == DSumTo(v, Len(v))
DDot(a, b)    == DSum([i \in 1..Len(a) |-> QMul(a[i], b[i])])
DMVec(A, x)   == Force([i \in 1..Len(A) |-> DDot(A[i], x)])
DMMul(A, B)   == Force([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
                    DSum([k \in 1..Len(B) |-> QMul(A[i][k], B[k][j])])]])

(* Gauss-Jordan on [A | B]: X with A X = B; <<>> when A is singular *)
RECURSIVE DElim(_, _, _)
DElim(M, n, k) ==
  IF k > n THEN M ELSE
  LET cand == {i \in k..n : M[i][k] # "0"} IN
  IF cand = {} THEN <<>> ELSE
  LET p   == CHOOSE i \in cand : \A j \in cand : QLe(QAbs(M[j][k]), QAbs(M[i][k]))
      row == Force([c \in 1..Len(M[p]) |-> QDiv(M[p][c], M[p][k])])
      S   == Force([i \in 1..n |-> IF i = k THEN row
                                   ELSE LET r == IF i = p THEN M[k] ELSE M[i]
                                        IN  [c \in 1..Len(r) |-> QSub(r[c], QMul(r[k], row[c]))]])
  IN  DElim(S, n, k + 1)
DSolve(A, B) ==
  LET n == Len(A)
      M == DElim(Force([i \in 1..n |-> A[i] \o B[i]]), n, 1)
  IN  IF M = <<>> THEN <<>> ELSE Force([i \in 1..n |-> SubSeq(M[i], n + 1, Len(M[i]))])

(* pivots of the L D L' factorisation of the lower triangle; stops at the first pivot that is not positive *)
RECURSIVE DPiv(_, _, _)
DPiv(M, n, acc) ==
  IF n = 0 THEN acc ELSE
  LET d == M[1][1] IN
  IF QLe(d, "0") \/ n = 1 THEN Append(acc, d) ELSE
  DPiv(Force([i \in 1..(n-1) |-> [j \in 1..(n-1) |->
         LET r == IF i >= j THEN i ELSE j
             c == IF i >= j THEN j ELSE i
         IN  QSub(M[r+1][c+1], QDiv(QMul(M[r+1][1], M[c+1][1]), d))]]), n - 1, Append(acc, d))
DPivots(A) == DPiv(A, Len(A), <<>>)
=============================================================================
