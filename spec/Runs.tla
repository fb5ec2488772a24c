---------------------------------- MODULE Runs ----------------------------------
(* A run of ep_iterations: iters sweeps over a chain of n nodes, each followed by  *)
(* r rows in the result table and a commit, when the true states are known; it can *)
(* die between any two steps.                                                      *)
EXTENDS DBRules, TLC, Json
CONSTANTS MaxN, MaxIters, Rs, Emits
VARIABLES n, iters, r, truth, pc, k, j, q, s, at
vars == <<n, iters, r, truth, pc, k, j, q, s, at>>
T == "T"
S0 == [Store({T}) EXCEPT !.mem[T].made = TRUE, !.disk[T].made = TRUE]
Init == /\ n \in 1..MaxN /\ iters \in 0..MaxIters /\ r \in Rs /\ truth \in BOOLEAN
        /\ pc = "upd" /\ k = 0 /\ j = 0 /\ q = 0 /\ s = S0 /\ at = <<>>
fixed == <<n, iters, r, truth>>
Upd == /\ pc = "upd" /\ k < iters /\ j < 3 * n
       /\ IF j + 1 < 3 * n THEN j' = j + 1 /\ k' = k /\ pc' = pc
          ELSE k' = k + 1 /\ j' = 0 /\ pc' = IF truth THEN "log" ELSE "upd"
       /\ UNCHANGED <<fixed, q, s, at>>
Log == /\ pc = "log" /\ q < r
       /\ s' = PutExp(s, T, <<k, q + 1>>, k) /\ q' = q + 1
       /\ pc' = IF q + 1 = r THEN "commit" ELSE "log"
       /\ UNCHANGED <<fixed, k, j, at>>
Store_ == /\ pc = "commit" /\ s' = Commit(s) /\ q' = 0 /\ pc' = "upd" /\ UNCHANGED <<fixed, k, j, at>>
Stop == /\ pc = "upd" /\ k = iters /\ pc' = "done" /\ at' = <<"done", 0, 0>> /\ UNCHANGED <<fixed, k, j, q, s>>
Die == /\ pc \in {"upd", "log", "commit"} /\ ~(pc = "upd" /\ k = iters)
       /\ pc' = "dead" /\ at' = <<pc, k, IF pc = "upd" THEN j ELSE q>> /\ s' = Crash(s)
       /\ UNCHANGED <<fixed, k, j, q>>
Next == Upd \/ Log \/ Store_ \/ Stop \/ Die
Spec == Init /\ [][Next]_vars /\ WF_vars(Upd \/ Log \/ Store_ \/ Stop)
Rows(c) == {[k |-> <<i, x>>, v |-> i] : i \in 1..c, x \in 1..r}
(* on disk: all rows of the sweeps logged so far and nothing else, whenever and wherever it dies *)
Logged == IF ~truth THEN 0 ELSE IF pc \in {"log", "commit"} \/ (pc = "dead" /\ at[1] # "upd") THEN k - 1 ELSE k
OneEach == s.disk[T].rows = Rows(Logged)
AtEnd   == pc = "done" => s.mem = s.disk /\ k = iters /\ s.disk[T].rows = Rows(IF truth THEN iters ELSE 0)
Ends    == <>(pc \in {"done", "dead"})
Emit == (Emits /\ pc \in {"done", "dead"}) => PrintT("@@" \o ToJson([n |-> n, iters |-> iters, r |-> r, truth |-> truth, at |-> at]))
=============================================================================
