------------------------------- MODULE Posterior -------------------------------
(* The joint posterior of a linear-Gaussian chain, from its information matrix:   *)
(*   x_0 ~ N(m0, P0),  x_i = F_i x_(i-1) + b_i + w,  y_i = H x_i + c + v.         *)
(* Independent of any message passing.  Every state also carries the initial      *)
(* marginal N(0, 1e10) of its node, as one more observation.  An observation that *)
(* has a component that is not a number is missing.                               *)
EXTENDS Transforms
Block(A, r, c, n) == A[(r - 1) \div n + 1][(c - 1) \div n + 1][((r - 1) % n) + 1][((c - 1) % n) + 1]
(* md = [f, h, Q, R] with affine f, h; prior = [m, S]; ys; times ts; u.  Result: a sequence of [m, S], or <<>> *)
Joint(md, prior, ys, ts, u) ==
  LET n  == Len(prior.m)
      N  == Len(ys)
      z  == ZeroV(n)
      F  == Force([i \in 1..N |-> FJac(md.f, z, ts[i], u)])
      b  == Force([i \in 1..N |-> FEval(md.f, z, ts[i], u)])
      H  == FJac(md.h, z, ts[1], u)
      c  == FEval(md.h, z, ts[1], u)
      QI == MInv(md.Q)
      RI == MInv(md.R)
      P1 == MInv(MAdd(Quad(F[1], prior.S), md.Q))
      m1 == VAdd(MVec(F[1], prior.m), b[1])
      HR == MMul(MT(H), RI)
      has == Force([i \in 1..N |-> \A r \in 1..Len(ys[i]) : IsQ(ys[i][r])])
      flat == MScale(QInv(LargeNum), Eye(n))
      obs(i) == IF has[i] THEN MAdd(MMul(HR, H), flat) ELSE flat
      FQ == Force([i \in 1..N |-> MMul(MT(F[i]), QI)])
      D  == Force([i \in 1..N |-> MAdd(MAdd(IF i = 1 THEN P1 ELSE QI, obs(i)), IF i < N THEN MMul(FQ[i + 1], F[i + 1]) ELSE ZeroM(n, n))])
      L  == Force([i \in 1..N |-> [j \in 1..N |->                   \* block (i, j)
              IF i = j THEN D[i] ELSE IF j = i + 1 THEN MScale("-1", FQ[j]) ELSE IF i = j + 1 THEN MScale("-1", MT(FQ[i])) ELSE ZeroM(n, n)]])
      h  == Force([i \in 1..N |-> VAdd(VAdd(IF i = 1 THEN MVec(P1, m1) ELSE MVec(QI, b[i]), IF has[i] THEN MVec(HR, VSub(ys[i], c)) ELSE z),
                                       IF i < N THEN VScale("-1", MVec(FQ[i + 1], b[i + 1])) ELSE z)])
      A  == Force([r \in 1..(n * N) |-> Force([k \in 1..(n * N) |-> Block(L, r, k, n)])])
      v  == Force([r \in 1..(n * N) |-> h[(r - 1) \div n + 1][((r - 1) % n) + 1]])
      S  == MInv(A)
      m  == MVec(S, v)
  IN  IF S = <<>> THEN <<>> ELSE
      Force([i \in 1..N |-> [m |-> Force([r \in 1..n |-> m[(i - 1) * n + r]]),
                             S |-> Force([r \in 1..n |-> Force([k \in 1..n |-> S[(i - 1) * n + r][(i - 1) * n + k]])])]])
=============================================================================
