----------------------------------- MODULE DB -----------------------------------
(* Histories of one writing connection: creating tables, inserting simulated      *)
(* data and results, committing, crashing at any point, opening again.            *)
EXTENDS DBRules, TLC, Json
CONSTANTS Exp, Seeds, MaxT, Keys, Vals, Depth, Emits
VARIABLES s, hist
vars == <<s, hist>>
Dyn == {"D"}
Tabs == Dyn \cup Exp
Times(n) == [i \in 1..n |-> i - 1]
Init == s = Store(Tabs) /\ hist = <<>>
Step(op, s2) == (Emits => Len(hist) < Depth) /\ s' = s2 /\ hist' = IF Emits THEN Append(hist, op) ELSE hist
DoCreate == s.up /\ \E t \in Tabs : Step(<<"mk", t>>, Create(s, t))
DoDyn    == s.up /\ \E t \in Dyn, seed \in Seeds, n \in 0..MaxT : s.mem[t].made /\
              \E vs \in [1..n -> Vals] : Step(<<"dyn", t, seed, vs>>, PutDyn(s, t, seed, Times(n), vs))
DoExp    == s.up /\ \E t \in Exp, k \in Keys, v \in Vals : s.mem[t].made /\ Step(<<"exp", t, k, v>>, PutExp(s, t, k, v))
DoCommit == s.up /\ Step(<<"commit">>, Commit(s))
DoCrash  == s.up /\ \E how \in {"kill", "close", "copy"} : Step(<<"crash", how>>, Crash(s))
DoOpen   == ~s.up /\ Step(<<"open">>, Open(s))
(* simulation draws an action first: results are drawn as often as everything else together *)
Result1 == DoExp
Result2 == DoExp
Result3 == DoExp
Next == DoCreate \/ DoDyn \/ DoExp \/ Result1 \/ Result2 \/ Result3 \/ DoCommit \/ DoCrash \/ DoOpen
Spec == Init /\ [][Next]_vars

KeysUnique == \A t \in Tabs : Unique(s.mem[t].rows) /\ Unique(s.disk[t].rows)
NoGhosts   == \A t \in Tabs : ~s.mem[t].made => s.mem[t].rows = {}
CleanAfter == ~s.up => s.mem = s.disk
DiskIsOld  == ~s.tx => s.mem = s.disk
(* committed keys never vanish; simulated data never changes once committed; only a commit (or a create) touches the disk *)
Durable == [][\A t \in Tabs : \A r \in s.disk[t].rows : Keyed(s'.disk[t].rows, r.k)]_vars
FirstStays == [][\A t \in Dyn : s.disk[t].rows \subseteq s'.disk[t].rows]_vars
Isolated == [][\A t \in Tabs : s'.disk[t].rows # s.disk[t].rows => (s'.disk = s.mem /\ s.tx)]_vars
CrashLoses == [][(s.up /\ ~s'.up) => s'.disk = s.disk]_vars
LastWins == [][\A t \in Exp : \A k \in Keys : (Keyed(s.mem[t].rows, k) /\ s'.mem[t].rows # s.mem[t].rows /\ s'.up) => Keyed(s'.mem[t].rows, k)]_vars
Emit == (Emits /\ Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
