-------------------------------- MODULE DBRules --------------------------------
(* The result store.  A table is a set of rows [k |-> key, v |-> value]; the     *)
(* store has the contents on disk, the contents the writing connection sees, and *)
(* whether that connection has a transaction open.  Every rule maps a store to   *)
(* the store after one call of Utils.Database (or a commit, crash, reopening).   *)
EXTENDS Naturals, Sequences, FiniteSets
NoTab == [made |-> FALSE, rows |-> {}]
Store(tabs) == [disk |-> [t \in tabs |-> NoTab], mem |-> [t \in tabs |-> NoTab], tx |-> FALSE, up |-> TRUE]

Keyed(T, k)      == \E r \in T : r.k = k
Ignore(T, k, v)  == IF Keyed(T, k) THEN T ELSE T \cup {[k |-> k, v |-> v]}
Replace(T, k, v) == {r \in T : r.k # k} \cup {[k |-> k, v |-> v]}

(* CREATE TABLE IF NOT EXISTS: durable at once, unless a transaction is open *)
Create(s, t) == IF s.mem[t].made THEN s
                ELSE [s EXCEPT !.mem[t].made = TRUE, !.disk[t].made = IF s.tx THEN @ ELSE TRUE]
(* simulated data of a seed: row i is at time i - 1; the first row of a key stays *)
RECURSIVE DynRows(_, _, _, _)
DynRows(T, seed, ts, vals) == IF vals = <<>> THEN T ELSE DynRows(Ignore(T, <<seed, Head(ts)>>, Head(vals)), seed, Tail(ts), Tail(vals))
PutDyn(s, t, seed, ts, vals) == IF vals = <<>> THEN s ELSE [s EXCEPT !.mem[t].rows = DynRows(@, seed, ts, vals), !.tx = TRUE]
(* a result: the last row of a key stays *)
PutExp(s, t, k, v) == [s EXCEPT !.mem[t].rows = Replace(@, k, v), !.tx = TRUE]
Commit(s)  == [s EXCEPT !.disk = s.mem, !.tx = FALSE]
Crash(s)   == [s EXCEPT !.mem = s.disk, !.tx = FALSE, !.up = FALSE]      \* also what closing without a commit does
Open(s)    == [s EXCEPT !.up = TRUE]

Unique(T) == \A r, q \in T : r.k = q.k => r = q
=============================================================================
