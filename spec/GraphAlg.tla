------------------------------- MODULE GraphAlg -------------------------------
(***************************************************************************)
(* Acyclic as used in Graph.tla agrees, for all graphs in bound, with "no  *)
(* closed walk", with "a topological order exists", and with the adjacency *)
(* matrix being nilpotent (all eigenvalues zero, the code's criterion).    *)
(***************************************************************************)
EXTENDS Graph, Json
CONSTANTS NN, MaxE, Emit
VARIABLES n, E, o
vars == <<n, E, o>>
Pairs(k) == {p \in (1..k) \X (1..k) : p[1] # p[2]}
Init == n \in 1..NN /\ E = <<>> /\ o = <<>>
Next == /\ Len(E) < MaxE
        /\ \E p \in Pairs(n) : E' = Append(E, p)
        /\ IF Emit THEN o' = Append(o, 0) ELSE \E b \in {0, 1} : o' = Append(o, b)
        /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
A == Arcs(E, o)
RECURSIVE Walk(_)
Walk(k) == IF k = 1 THEN A ELSE LET W == Walk(k - 1) IN {<<a[1], b[2]>> : a \in W, b \in A} \cap {<<x, y>> \in (1..n) \X (1..n) : \E z \in 1..n : <<x, z>> \in W /\ <<z, y>> \in A}
NoClosed == \A k \in 1..n : \A v \in 1..n : <<v, v>> \notin Walk(k)
Topo == \E f \in [1..n -> 1..n] : \A a \in A : f[a[1]] < f[a[2]]
RECURSIVE MPow(_)
MPow(k) == IF k = 1 THEN [r \in 1..n |-> [c \in 1..n |-> IF <<r, c>> \in A THEN 1 ELSE 0]]
           ELSE LET M == MPow(k - 1) IN TLCEval([r \in 1..n |-> TLCEval([c \in 1..n |-> Cardinality({z \in 1..n : M[r][z] > 0 /\ <<z, c>> \in A})])])
Nilpotent == \A r \in 1..n : \A c \in 1..n : MPow(n)[r][c] = 0
Agree == Emit \/ (LET a == Acyclic(n, E, o) IN a = NoClosed /\ a = Topo /\ a = Nilpotent)
(* every graph has an acyclic orientation, and reversing one gives another *)
Some == Emit \/ (\E p \in Orientations(E) : Acyclic(n, E, p))
Reverse == Emit \/ (Acyclic(n, E, o) = Acyclic(n, E, [k \in 1..Len(E) |-> 1 - o[k]]))
Printed == Emit => PrintT("BEH " \o ToJson([n |-> n, E |-> E]))
=============================================================================
