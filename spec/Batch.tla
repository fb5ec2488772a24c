---------------------------------- MODULE Batch ----------------------------------
(* A batch experiment: N units of work (an iterated smoother run; an EP sweep), one  *)
(* after the other, each followed by r rows and a commit; run again and again on one *)
(* store, killed anywhere or not.  keep: the first result of a key stays (iterated   *)
(* smoother experiments); otherwise a key that is there already ends the run (EP).   *)
EXTENDS DBRules, TLC, Json
CONSTANTS N, R, MaxRuns, Emits
VARIABLES s, keep, pc, run, g, q, old, hist, fate
vars == <<s, keep, pc, run, g, q, old, hist, fate>>
T == "T"
Keys == {<<u, x>> : u \in 1..N, x \in 1..R}
Rows_ == s.disk[T].rows
S0(base) == [Store({T}) EXCEPT !.mem[T] = [made |-> TRUE, rows |-> base], !.disk[T] = [made |-> TRUE, rows |-> base]]
Base(ks) == {[k |-> k, v |-> 0] : k \in ks}
Idle == pc \in {"idle", "dead", "done", "clash"}
Fates == IF ~Emits THEN {<<"any", 0>>} ELSE {<<"no", 0>>} \cup ({"work", "log", "commit"} \X (1..N))
Init == /\ keep \in BOOLEAN /\ s \in {S0(Base(ks)) : ks \in IF Emits THEN {{}, {<<1, 1>>}, {<<N, R>>}} ELSE SUBSET Keys}
        /\ pc = "idle" /\ run = 0 /\ g = 0 /\ q = 0 /\ old = {} /\ hist = <<>> /\ fate = <<"any", 0>>
Begin == /\ Idle /\ run < MaxRuns /\ (~Emits \/ keep \/ run = 0)
         /\ pc' = "work" /\ run' = run + 1 /\ g' = 0 /\ q' = 0 /\ old' = Rows_ /\ s' = Open(s) /\ fate' \in Fates /\ UNCHANGED <<keep, hist>>
Work == /\ pc = "work" /\ g < N /\ pc' = "log" /\ UNCHANGED <<s, keep, run, g, q, old, hist, fate>>
Log  == /\ pc = "log"
        /\ LET k == <<g + 1, q + 1>> IN
           IF ~keep /\ Keyed(s.mem[T].rows, k)
           THEN pc' = "clash" /\ s' = Crash(s) /\ q' = q /\ hist' = IF Emits THEN Append(hist, <<"clash", g + 1>>) ELSE hist
           ELSE /\ s' = [s EXCEPT !.mem[T].rows = Ignore(@, k, run), !.tx = TRUE]
                /\ q' = q + 1 /\ pc' = (IF q + 1 = R THEN "commit" ELSE "log") /\ UNCHANGED hist
        /\ UNCHANGED <<keep, run, g, old, fate>>
Keep == /\ pc = "commit" /\ s' = Commit(s) /\ g' = g + 1 /\ q' = 0 /\ pc' = "work" /\ UNCHANGED <<keep, run, old, hist, fate>>
End  == /\ pc = "work" /\ g = N /\ pc' = "done" /\ s' = Crash(s) /\ hist' = (IF Emits THEN Append(hist, <<"no", 0>>) ELSE hist) /\ UNCHANGED <<keep, run, g, q, old, fate>>
Doomed == fate[1] = "any" \/ fate = <<pc, g + 1>>
Die  == /\ pc \in {"work", "log", "commit"} /\ Doomed /\ pc' = "dead" /\ s' = Crash(s)
        /\ hist' = (IF Emits THEN Append(hist, <<pc, g + 1>>) ELSE hist) /\ UNCHANGED <<keep, run, g, q, old, fate>>
Steps == Work \/ Log \/ Keep \/ End
Next == Begin \/ (~(Emits /\ Doomed) /\ Steps) \/ Die
Spec == Init /\ [][Next]_vars /\ WF_vars(Steps)
(* the store holds what was there and the rows of the units completed in this run, the first result of a key winning *)
Exact == Rows_ = IF pc = "idle" THEN Rows_ ELSE old \cup {[k |-> k, v |-> run] : k \in {x \in Keys : x[1] <= g /\ ~Keyed(old, x)}}
Unique_ == Unique(Rows_)
Full == pc = "done" => \A k \in Keys : Keyed(Rows_, k)
Ends == [](pc = "work" => <>(pc \in {"done", "dead", "clash"}))
Emit == (Emits /\ Idle /\ run > 0 /\ (Len(hist) = MaxRuns \/ ~keep)) => PrintT("@@" \o ToJson([keep |-> keep, base |-> Cardinality({r \in Rows_ : r.v = 0}), runs |-> hist]))
=============================================================================
