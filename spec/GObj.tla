--------------------------------- MODULE GObj ---------------------------------
(* A Gaussian object as a lazily evaluated value: two of its four parameters    *)
(* are given, the other two (and the Cholesky factor) are filled in, in pairs,  *)
(* when first read.  The design claim: whatever was read or done before, a read *)
(* shows Denote(attr), and operations on an object never change it.  TLC        *)
(* explores all histories up to Depth; each maximal one is printed and replayed *)
(* on real objects (drv_gauss.access), where TGauss judges every reading.       *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth, Emits
Moments == {"mean", "cov"}
Natural == {"precision", "shift"}
Reads   == Moments \cup Natural \cup {"chol"}
Others  == {"sample", "nll", "str", "copy", "mulself", "use"}
VARIABLES given, cache, hist
vars == <<given, cache, hist>>

Denote(a) == <<"value of", a>>
None      == <<>>
Given     == IF given = "mom" THEN Moments ELSE Natural
Derived   == (Moments \cup Natural) \ Given
(* what an access of a needs: the pair it belongs to, filled together; chol needs cov *)
Needs(a)  == CASE a \in Given -> {} [] a \in Derived -> Derived
               [] a = "chol" -> {"chol"} \cup (IF "cov" \in Derived THEN Derived ELSE {})
Uses(o)   == CASE o \in {"sample", "nll"} -> {"mean", "cov"}
               [] o = "str"  -> Given
               [] o = "copy" -> Given
               [] o \in {"mulself", "use"} -> Natural
Fill(S)   == [a \in DOMAIN cache |-> IF a \in S /\ cache[a] = None THEN Denote(a) ELSE cache[a]]

Init == /\ given \in {"mom", "nat"}
        /\ cache = [a \in Reads |-> IF a \in (IF given = "mom" THEN Moments ELSE Natural) THEN Denote(a) ELSE None]
        /\ hist = <<>>
Read(a) == cache' = Fill(Needs(a)) /\ hist' = Append(hist, a)
Do(o)   == cache' = Fill(UNION {Needs(a) : a \in Uses(o)}) /\ hist' = Append(hist, o)
Next == Len(hist) < Depth /\ given' = given /\ ((\E a \in Reads : Read(a)) \/ (\E o \in Others : Do(o)))

Coherent  == \A a \in Reads : cache[a] \in {None, Denote(a)}
PairWhole == \A P \in {Moments, Natural} : (\A a \in P : cache[a] = None) \/ (\A a \in P : cache[a] # None)
Kept      == \A a \in Given : cache[a] = Denote(a)
ReadShows == \A a \in Reads : Fill(Needs(a))[a] = Denote(a)
OnlyGrows == [][\A a \in Reads : cache[a] # None => cache'[a] = cache[a]]_vars
Spec == Init /\ [][Next]_vars
Emit == (Emits /\ Len(hist) = Depth /\ given = "mom") => PrintT("@@" \o ToJson(hist))
=============================================================================
