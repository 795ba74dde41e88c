----------------------------- MODULE TraceGraph -----------------------------
(***************************************************************************)
(* Trace validation of ComponentConstraintGraph.                           *)
(*  build: the targets listed, those marked good; or the rejection of an   *)
(*         edge that names an unknown node                                 *)
(*  save:  the graphs found in the files written by SaveGraphs, each with  *)
(*         its nodes and its arcs <<from, to, edge number>>; the trees the *)
(*         main page links to                                              *)
(***************************************************************************)
EXTENDS Graph, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Rng(s) == {s[k] : k \in 1..Len(s)}
Valid(e) == \A k \in 1..Len(e.E) : e.E[k][1] <= e.n /\ e.E[k][2] <= e.n
Same(s, S) == Rng(s) = S /\ Len(s) = Cardinality(S)      \* each once, in any order
Labelled(E, o) == {IF o[k] = 0 THEN <<E[k][1], E[k][2], k>> ELSE <<E[k][2], E[k][1], k>> : k \in 1..Len(E)}
Good(e) == {o \in Orientations(e.E) : Acyclic(e.n, e.E, o)}
Clauses(e) ==
  IF ~Valid(e) THEN (IF e.raised = "SystemExit" THEN {} ELSE {<<"an edge with an unknown node was accepted">>})
  ELSE IF e.raised # "" THEN {<<"raised", e.raised>>}
  ELSE (IF Same(e.targets, Orientations(e.E)) THEN {} ELSE {<<"targets are not all orientations">>})
       \cup (IF Same(e.good, Good(e)) THEN {} ELSE {<<"good targets are not the acyclic orientations", Good(e)>>})
       \cup (IF e.op # "save" THEN {}
             ELSE LET want == {Labelled(e.E, o) : o \in IF e.all THEN Orientations(e.E) ELSE Good(e)}
                  IN (IF Same([k \in 1..Len(e.graphs) |-> Rng(e.graphs[k].arcs)], want) THEN {} ELSE {<<"graphs saved", want>>})
                     \cup (IF \A k \in 1..Len(e.graphs) : Same(e.graphs[k].arcs, Rng(e.graphs[k].arcs)) /\ Same(e.graphs[k].nodes, 1..e.n) THEN {} ELSE {<<"nodes or arcs of a graph">>})
                     \cup (IF Same(e.links, 0..(Len(e.graphs) - 1)) THEN {} ELSE {<<"links of the main page">>})
                     \cup (IF e.files THEN {} ELSE {<<"files missing or referring to others">>}))
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET v == Clauses(Trace[l]) IN bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
