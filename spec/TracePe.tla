------------------------------ MODULE TracePe ------------------------------
(***************************************************************************)
(* Trace validation of pe and pejit.  A function takes n arguments (each a *)
(* tree of integers, logged flat) and returns a tree of leaves; a leaf is  *)
(* described by a form:                                                    *)
(*   [k |-> "id", a, terms]    the leaves of argument a as they are        *)
(*   [k |-> "sum", a, terms]   sum of terms <<coef, args>>: coef times the *)
(*                             product over args of Sig(argument),         *)
(*                             in a vector of length a, entry j plus j     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, beh, objs, dead
vars == <<l, bad, beh, objs, dead>>
RECURSIVE SigN(_, _)
SigN(v, j) == IF j = 0 THEN 0 ELSE j * v[j] + SigN(v, j - 1)
Sig(v) == SigN(v, Len(v))
RECURSIVE Prod(_, _, _)
Prod(vals, as, j) == IF j = 0 THEN 1 ELSE Sig(vals[as[j]]) * Prod(vals, as, j - 1)
RECURSIVE Sum(_, _, _)
Sum(vals, ts, j) == IF j = 0 THEN 0 ELSE ts[j][1] * Prod(vals, ts[j][2], Len(ts[j][2])) + Sum(vals, ts, j - 1)
Leaf(vals, f) == IF f.k = "id" THEN vals[f.a] ELSE [j \in 1..f.a |-> Sum(vals, f.terms, Len(f.terms)) + j]
Eff(o, e) == [k \in 1..o.n |-> IF \E c \in 1..Len(o.cs) : o.cs[c] = k THEN o.vals[k] ELSE e.vals[k]]
Clauses(O, e) ==
  IF e.raised # "" THEN {<<"raised", e.raised>>}
  ELSE IF e.op = "new" THEN (IF e.kept THEN {} ELSE {<<"the caller's list of constants was changed">>})
  ELSE LET o == O[e.i]
           want == [f \in 1..Len(o.forms) |-> Leaf(Eff(o, e), o.forms[f])]
       IN (IF e.out = want THEN {} ELSE {<<"value", want>>})
          \cup (IF e.tree THEN {} ELSE {<<"structure of the result">>})
          \cup (IF e.once THEN {} ELSE {<<"the function ran again">>})
Init == l = 1 /\ bad = <<>> /\ beh = -1 /\ objs = <<>> /\ dead = FALSE
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]
               O == IF e.b = beh THEN objs ELSE <<>>
               skip == e.b = beh /\ dead
               v == IF skip THEN {} ELSE Clauses(O, e)
           IN /\ beh' = e.b /\ dead' = (skip \/ v # {})
              /\ objs' = IF e.op = "new" THEN Append(O, e) ELSE O
              /\ bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED <<bad, beh, objs, dead>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
