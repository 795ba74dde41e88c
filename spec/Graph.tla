-------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* Component constraint graphs: nodes 1..n, edges a sequence of pairs of   *)
(* distinct nodes; an orientation is a sequence of 0/1 per edge, 0: from   *)
(* the first node to the second.  The valid embeddings are the acyclic     *)
(* orientations.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Arcs(E, o) == {IF o[k] = 0 THEN <<E[k][1], E[k][2]>> ELSE <<E[k][2], E[k][1]>> : k \in 1..Len(E)}
(* repeatedly remove the nodes without incoming arcs; what remains contains a cycle *)
RECURSIVE Core(_, _)
Core(S, A) == LET top == {v \in S : ~\E u \in S : <<u, v>> \in A} IN IF top = {} THEN S ELSE Core(S \ top, A)
Acyclic(n, E, o) == Core(1..n, Arcs(E, o)) = {}
Orientations(E) == [1..Len(E) -> {0, 1}]
=============================================================================
