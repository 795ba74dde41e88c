----------------------------- MODULE TraceEgrad -----------------------------
(***************************************************************************)
(* Trace validation of egrad / egradSimple / step.  A line holds           *)
(*   owner[v], vals[v]     argument and integer value of variable v        *)
(*   outs[k]               terms [c, e, s] of output element k:            *)
(*                         c * prod_v x_v^e[v] * prod_(v in s) step(x_v)   *)
(*   hist                  the arguments differentiated for, first to last *)
(*   obs[k]                residues of the value observed, and a flag      *)
(***************************************************************************)
EXTENDS FieldP, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

RECURSIVE PowProd(_, _, _, _)
PowProd(i, vals, e, v) == IF v = 0 THEN 1 ELSE Mu(i, Pw(i, Md(i, vals[v]), e[v]), PowProd(i, vals, e, v - 1))
StepAll(vals, s) == IF \A k \in 1..Len(s) : vals[s[k]] > 0 THEN 1 ELSE 0

(* value of the h-th and later differentiations of one term c * prod x^e *)
RECURSIVE TermVal(_, _, _, _, _), SumVars(_, _, _, _, _, _)
TermVal(i, ev, c, e, h) == IF h > Len(ev.hist) THEN Mu(i, Md(i, c), PowProd(i, ev.vals, e, Len(e)))
                           ELSE SumVars(i, ev, c, e, h, Len(e))
SumVars(i, ev, c, e, h, v) ==
  IF v = 0 THEN 0
  ELSE Ad(i, SumVars(i, ev, c, e, h, v - 1),
          IF ev.owner[v] = ev.hist[h] /\ e[v] > 0 THEN TermVal(i, ev, c * e[v], [e EXCEPT ![v] = @ - 1], h + 1) ELSE 0)

RECURSIVE OutVal(_, _, _, _)
OutVal(i, ev, ts, k) == IF k = 0 THEN 0
                        ELSE Ad(i, OutVal(i, ev, ts, k - 1),
                                Mu(i, StepAll(ev.vals, ts[k].s), TermVal(i, ev, ts[k].c, ts[k].e, 1)))
Want(ev, k) == << OutVal(1, ev, ev.outs[k], Len(ev.outs[k])), OutVal(2, ev, ev.outs[k], Len(ev.outs[k])), 0 >>

Clauses(ev) ==
  IF ev.raised # "" THEN {<<"raised", ev.raised>>}
  ELSE IF ~ev.tree THEN {<<"structure, shape or type of the result">>}
  ELSE {<<"value", k>> : k \in {k \in 1..Len(ev.outs) : ev.obs[k] # Want(ev, k)}}

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET v == Clauses(Trace[l]) IN bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
