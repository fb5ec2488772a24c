---------------------------------- MODULE Graph ----------------------------------
(* The factor graph and the ways of equipping it.  A node is                       *)
(*   [idx, prev, next, est, sys]: its number, the position of its neighbours in    *)
(* the chain (0: none), which estimator and which system it was given last.        *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxN, MaxOps, Emits
VARIABLES g, hist
vars == <<g, hist>>
Chain(N) == [i \in 1..N |-> [idx |-> i - 1, prev |-> i - 1, next |-> IF i = N THEN 0 ELSE i + 1, est |-> 0, sys |-> 0]]
Equip(x, what, k) == [i \in 1..Len(x) |-> IF what = "est" THEN [x[i] EXCEPT !.est = k] ELSE [x[i] EXCEPT !.sys = k]]
Build(N, e, s) == Equip(Equip(Chain(N), "est", e), "sys", s)
Kinds == {"est", "sys"}
Init == \E N \in 1..MaxN, e \in 0..1, s \in 0..1 : g = Build(N, e, s) /\ hist = <<<<"build", N, e, s>>>>
Next == /\ Len(hist) <= MaxOps
        /\ \E w \in Kinds, k \in 1..2 : g' = Equip(g, w, k) /\ hist' = Append(hist, <<w, k>>)
Spec == Init /\ [][Next]_vars
(* an open chain, numbered from 0, every node equipped alike and with what was given last *)
Open == /\ \A i \in 1..Len(g) : g[i].idx = i - 1
        /\ \A i \in 1..Len(g) : (g[i].prev = 0) = (i = 1) /\ (g[i].next = 0) = (i = Len(g))
        /\ \A i \in 1..Len(g) : g[i].next # 0 => g[g[i].next].prev = i
Alike == \A i, j \in 1..Len(g) : g[i].est = g[j].est /\ g[i].sys = g[j].sys
LastOf(w) == LET S == {j \in 2..Len(hist) : hist[j][1] = w} IN
             IF S = {} THEN (IF w = "est" THEN hist[1][3] ELSE hist[1][4]) ELSE hist[CHOOSE j \in S : \A k \in S : k <= j][2]
Latest == g[1].est = LastOf("est") /\ g[1].sys = LastOf("sys")
Emit == Emits => PrintT("@@" \o ToJson(hist))
=============================================================================
