----------------------------- MODULE TraceHybrid -----------------------------
(***************************************************************************)
(* Trace validation of HybridUtfc.  One line = one construction and        *)
(* evaluation: Ns (numbers of points the bases were made for), the total   *)
(* number of columns returned, and one block per basis (a TraceBasis line  *)
(* holding the columns that are its share).                                *)
(***************************************************************************)
EXTENDS TraceBasis

RECURSIVE Widths(_, _)
Widths(bs, k) == IF k = 0 THEN 0 ELSE Len(Columns(CaseOf(bs[k]))) + Widths(bs, k - 1)

HClauses(e) ==
  IF \E a, b \in 1..Len(e.Ns) : e.Ns[a] # e.Ns[b]
  THEN IF e.raised = "" THEN {<<"bases for different numbers of points accepted", e.Ns>>} ELSE {}
  ELSE IF e.raised # "" THEN {<<"raised", e.raised>>}
  ELSE IF e.cols # Widths(e.blocks, Len(e.blocks)) THEN {<<"columns", e.cols, Widths(e.blocks, Len(e.blocks))>>}
  ELSE UNION {{<<k, x>> : x \in Clauses(e.blocks[k])} : k \in 1..Len(e.blocks)}

HStep == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET v == HClauses(Trace[l])
            IN bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
HNext == HStep \/ Finish
HSpec == Init /\ [][HNext]_vars
=============================================================================
