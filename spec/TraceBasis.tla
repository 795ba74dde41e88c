------------------------------ MODULE TraceBasis ------------------------------
(***************************************************************************)
(* Trace validation of basis-matrix evaluations recorded from the real     *)
(* code.  One line = one evaluation: the case, the history that produced   *)
(* it (constructor, automatic differentiation, compilation) and the        *)
(* projected result.  The verdict is total: every line is judged, failing  *)
(* clauses are collected and written out at the end.                       *)
(***************************************************************************)
EXTENDS BasisMatrix, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad
vars == <<l, bad>>

(* order of differentiation from the recorded operations: op k differentiates w.r.t. variable k *)
Count(ops, k) == Cardinality({j \in 1..Len(ops) : ops[j] = k})
CaseOf(e) == [e EXCEPT !.d = [k \in 1..e.dim |-> e.d[k] + Count(e.ops, k)]]

Clauses(e) ==
  IF e.raised # "" THEN {<<"raised", e.raised>>}
  ELSE LET c == CaseOf(e)
           cols == Columns(c)
           full == AllCols(c)
       IN (IF e.shape # <<e.rows, Len(cols)>> THEN {<<"shape", e.shape, <<e.rows, Len(cols)>>>>}
           ELSE LET wrong == {<<"value", r, BadCols(c, r, cols, e.obs[r])>> : r \in 1..Len(c.pts)}
                IN {x \in wrong : x[3] # {}})
          \cup (IF e.rowfun THEN {} ELSE {<<"equal points give different rows">>})
          \cup (IF e.dtype # e.wantdtype THEN {<<"dtype", e.dtype>>} ELSE {})
          \cup (IF e.nfull = -1 \/ e.nfull = Len(full) THEN {} ELSE {<<"full count", e.nfull, Len(full)>>})
          \cup (IF e.nkept = -1 \/ e.nkept = Len(Columns([c EXCEPT !.full = FALSE])) THEN {} ELSE {<<"kept count", e.nkept>>})

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET v == Clauses(Trace[l])
           IN bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 2 = Len(Trace)
=============================================================================
