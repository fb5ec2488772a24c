---------------------------------- MODULE Sweep ----------------------------------
(* A sweep over C configurations: run after run on one result store, each with its  *)
(* number of iterations, with or without override, with iterations that fail        *)
(* numerically, killed at any point or not.  A row <<c, i>> holds the number of the *)
(* run that wrote it.                                                               *)
EXTENDS DBRules, TLC, Json
CONSTANTS C, Nis, MaxRuns, Emits
VARIABLES s, pc, run, ni, over, bad, c, i, g, old, hist, fate
vars == <<s, pc, run, ni, over, bad, c, i, g, old, hist, fate>>
T == "T"
Rows_ == s.disk[T].rows
Has(k) == Keyed(Rows_, k)
Idle == pc \in {"idle", "dead", "done"}
Init == /\ s = [Store({T}) EXCEPT !.mem[T].made = TRUE, !.disk[T].made = TRUE]
        /\ pc = "idle" /\ run = 0 /\ ni = 0 /\ over = FALSE /\ bad = <<0, 0>> /\ c = 0 /\ i = 0 /\ g = 0 /\ old = {} /\ hist = <<>> /\ fate = <<"any", 0>>
Note(what) == hist' = IF Emits THEN Append(hist, [ni |-> ni, over |-> over, bad |-> bad, crash |-> what]) ELSE hist
(* when histories are generated, the end of a run is drawn when it starts (and no end, or no failure, more often than each other) *)
Fates == IF ~Emits THEN {<<"any", 0>>} ELSE ({"no"} \X (1..(3 * C))) \cup ({"sweep", "log", "commit"} \X (1..(C + 2)))
Bads(k) == {<<0, x>> : x \in IF Emits THEN 1..(2 * C) ELSE {0}} \cup {<<x, y>> : x \in 1..C, y \in 1..k}
StartRun == /\ Idle /\ run < MaxRuns
            /\ ni' \in Nis /\ over' \in BOOLEAN /\ bad' \in Bads(ni') /\ fate' \in Fates
            /\ run' = run + 1 /\ c' = 1 /\ i' = 1 /\ g' = 0 /\ pc' = "look" /\ old' = Rows_
            /\ s' = Open(s) /\ UNCHANGED hist
Goto(c2) == /\ c' = c2 /\ i' = 1 /\ pc' = IF c2 > C THEN "end" ELSE "look"
Look  == /\ pc = "look"
         /\ IF ~over /\ Has(<<c, ni>>) THEN Goto(c + 1) ELSE pc' = "sweep" /\ UNCHANGED <<c, i>>
         /\ UNCHANGED <<s, run, ni, over, bad, g, old, hist, fate>>
Pass  == /\ pc = "sweep"
         /\ IF bad = <<c, i>> THEN Goto(c + 1) ELSE pc' = "log" /\ UNCHANGED <<c, i>>
         /\ UNCHANGED <<s, run, ni, over, bad, g, old, hist, fate>>
Log   == /\ pc = "log" /\ s' = PutExp(s, T, <<c, i>>, run) /\ pc' = "commit" /\ UNCHANGED <<c, i, run, ni, over, bad, g, old, hist, fate>>
Keep  == /\ pc = "commit" /\ s' = Commit(s) /\ g' = g + 1
         /\ IF i = ni THEN Goto(c + 1) ELSE i' = i + 1 /\ pc' = "sweep" /\ c' = c
         /\ UNCHANGED <<run, ni, over, bad, old, hist, fate>>
End   == /\ pc = "end" /\ pc' = "done" /\ s' = Crash(s) /\ Note(<<"no", 0>>) /\ UNCHANGED <<run, ni, over, bad, c, i, g, old, fate>>
Doomed == fate[1] = "any" \/ fate = <<pc, g + 1>>
Die   == /\ pc \in {"sweep", "log", "commit"} /\ Doomed /\ pc' = "dead" /\ s' = Crash(s) /\ Note(<<pc, g + 1>>) /\ UNCHANGED <<run, ni, over, bad, c, i, g, old, fate>>
Steps == Look \/ Pass \/ Log \/ Keep \/ End
Next == StartRun \/ (~(Emits /\ Doomed) /\ Steps) \/ Die
Spec == Init /\ [][Next]_vars /\ WF_vars(Steps)
OldHas(k) == Keyed(old, k)
Skipped(x) == ~over /\ OldHas(<<x, ni>>)
Mine(x) == {r \in Rows_ : r.k[1] = x}
OldOf(x) == {r \in old : r.k[1] = x}
Upto(x) == IF bad[1] = x THEN bad[2] - 1 ELSE ni
(* a run that ends has left alone what was done, and done all the rest *)
Complete == pc = "done" => \A x \in 1..C :
  IF Skipped(x) THEN Mine(x) = OldOf(x)
  ELSE Mine(x) = {r \in OldOf(x) : r.k[2] > Upto(x)} \cup {[k |-> <<x, y>>, v |-> run] : y \in 1..Upto(x)}
(* killed anywhere: old rows are still there, new ones are first iterations of configurations it had to do *)
Partial == pc = "dead" => \A x \in 1..C :
  /\ \A r \in OldOf(x) : Has(r.k)
  /\ Skipped(x) => Mine(x) = OldOf(x)
  /\ \A r \in Mine(x) : r.v = run => \A y \in 1..r.k[2] : \E r2 \in Mine(x) : r2.k = <<x, y>> /\ r2.v = run
Prefix == \A r \in Rows_ : \A y \in 1..r.k[2] : Has(<<r.k[1], y>>)
Ends == [](pc = "look" => <>(pc \in {"done", "dead"}))
Emit == (Emits /\ Idle /\ Len(hist) = MaxRuns) => PrintT("@@" \o ToJson(hist))
=============================================================================
