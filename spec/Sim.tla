----------------------------------- MODULE Sim -----------------------------------
(* Simulation over a heap of arrays.  A model function may answer with a new array, *)
(* with the array it was given, or with a buffer of its own that it fills anew on   *)
(* every call; InPlace says whether noise is added into the array a function         *)
(* answered with (which breaks Kept) or into a new one.                              *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS N, InPlace
VARIABLES heap,     \* cell -> value; 1: x_zero, 2: the transition's buffer, 3: the measurement's buffer
          x,        \* the cell of the current state
          out,      \* what was returned: <<cell of x_k, its value then, cell of y_k, its value then>>
          given,    \* the values the functions left in their buffers
          k
vars == <<heap, x, out, given, k>>
F(v) == 2 * v + 1
H(v) == v + 100
Answers == {"fresh", "arg", "buffer"}
(* a call of a function with value v = fn(argument): <<heap, cell>> *)
Call(hp, arg, v, how, buf) == CASE how = "fresh"  -> <<Append(hp, v), Len(hp) + 1>>
                                [] how = "arg"    -> <<hp, arg>>
                                [] how = "buffer" -> <<[hp EXCEPT ![buf] = v], buf>>
AddNoise(hp, cell, w) == IF InPlace THEN <<[hp EXCEPT ![cell] = @ + w], cell>> ELSE <<Append(hp, hp[cell] + w), Len(hp) + 1>>
Init == heap = <<5, 0, 0>> /\ x = 1 /\ out = <<>> /\ given = <<0, 0>> /\ k = 0
Step(hf, hh, w, v) ==
  LET c1 == Call(heap, x, F(heap[x]), hf, 2)
      n1 == AddNoise(c1[1], c1[2], w)
      c2 == Call(n1[1], n1[2], H(n1[1][n1[2]]), hh, 3)
      n2 == AddNoise(c2[1], c2[2], v)
  IN  /\ heap' = n2[1] /\ x' = n1[2] /\ k' = k + 1
      /\ out' = Append(out, <<n1[2], n1[1][n1[2]], n2[2], n2[1][n2[2]]>>)
      /\ given' = <<IF hf = "buffer" THEN F(heap[x]) ELSE given[1], IF hh = "buffer" THEN c2[1][3] ELSE given[2]>>
Next == k < N /\ \E hf, hh \in Answers : Step(hf, hh, 10 + k, 1000 + k)
Spec == Init /\ [][Next]_vars
(* what was returned, what was given and what functions keep stay as they were *)
Kept == /\ heap[1] = 5 /\ heap[2] = given[1] /\ heap[3] = given[2]
        /\ \A i \in 1..Len(out) : heap[out[i][1]] = out[i][2] /\ heap[out[i][3]] = out[i][4]
=============================================================================
