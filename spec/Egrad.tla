-------------------------------- MODULE Egrad --------------------------------
(***************************************************************************)
(* egrad and egradSimple as operators on functions of several arguments.   *)
(*                                                                         *)
(* A function is a polynomial in the elements of its arguments (variable v *)
(* is an element of argument Owner[v]); factors step(v) are locally        *)
(* constant.  egrad(f, j) is the derivative of f along the all-ones        *)
(* direction of argument j: the sum of the partial derivatives for the     *)
(* elements of j, which for an elementwise f is its elementwise            *)
(* derivative.  Histories of differentiations, with the function compiled  *)
(* or wrapped in between, are printed and replayed into the real code.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Args, MaxLen
Owner == [v \in 1..3 |-> IF v = 3 THEN 2 ELSE 1]       \* the model's function: x_1, x_2 of argument 1, x_3 of argument 2
Deg == 2
Mono == [1..3 -> 0..Deg]
Zero == [m \in Mono |-> 0]

VARIABLES start, poly, hist
vars == <<start, poly, hist>>

Dec(m, v) == [m EXCEPT ![v] = @ - 1]
Inc(m, v) == [m EXCEPT ![v] = @ + 1]
PartialD(p, v) == [m \in Mono |-> IF m[v] = Deg THEN 0 ELSE (m[v] + 1) * p[Inc(m, v)]]
RECURSIVE SumVars(_, _, _)
SumVars(p, j, v) == IF v = 0 THEN Zero
                    ELSE LET rest == SumVars(p, j, v - 1)
                             d == IF Owner[v] = j THEN PartialD(p, v) ELSE Zero
                         IN [m \in Mono |-> rest[m] + d[m]]
D(p, j) == SumVars(p, j, 3)

Ops == {"egrad", "egradSimple"}
Wraps == {"none", "jit", "partial"}
Init == /\ start \in {[m \in Mono |-> IF m = a THEN 3 ELSE IF m = b THEN 5 ELSE 0] : a \in Mono, b \in {[v \in 1..3 |-> v % 3]}}
        /\ poly = start /\ hist = <<>>
Diff(op, j, w) ==
  /\ Len(hist) < MaxLen
  /\ poly' = D(poly, j)
  /\ hist' = Append(hist, [op |-> op, j |-> j, wrap |-> w])
  /\ UNCHANGED start
Next == \E op \in Ops, j \in Args, w \in Wraps : ~(op = "egradSimple" /\ w = "partial") /\ Diff(op, j, w)
Spec == Init /\ [][Next]_vars

(* the result only depends on how often each argument was differentiated, not on order, operator or wrapping *)
RECURSIVE Times(_, _, _)
Times(p, j, n) == IF n = 0 THEN p ELSE Times(D(p, j), j, n - 1)
Cnt(j) == Cardinality({k \in 1..Len(hist) : hist[k].j = j})
OrderFree == poly = Times(Times(start, 1, Cnt(1)), 2, Cnt(2))
(* the derivative along argument 2 of an elementwise term in it alone *)
Untouched == (\A k \in 1..Len(hist) : hist[k].j = 2) =>
               \A m \in Mono : poly[m] # 0 => \E a \in Mono : start[a] # 0 /\ a[1] = m[1] /\ a[2] = m[2] /\ a[3] = m[3] + Len(hist)
=============================================================================
