------------------------------ MODULE TraceGrid ------------------------------
(***************************************************************************)
(* Trace validation of the collocation grids of real utfc / mtfc objects.  *)
(* A coordinate is logged by its position on the family's grid: node j of  *)
(* n has (Chebyshev-Gauss-Lobatto, CP and LeP) angle (n-1-j) pi/(n-1), and *)
(* (all other bases) lies at the fraction j/(n-1) of the domain.  The      *)
(* logged number is angle (n-1)/pi, resp. fraction (n-1), with a flag that *)
(* it is an integer up to rounding.  Both the points z of the basis domain *)
(* and the points x of the problem domain are logged this way.             *)
(***************************************************************************)
EXTENDS FieldP, TLC, FiniteSets, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

RECURSIVE Prod(_, _, _)
Prod(s, a, b) == IF a > b THEN 1 ELSE s[a] * Prod(s, a + 1, b)
Digit(n, k, i) == ((i - 1) \div Prod(n, k + 1, Len(n))) % n[k]

Lobatto(e) == e.basis \in {"CP", "LeP"}
Want(e, k, i) == IF Lobatto(e) THEN e.n[k] - 1 - Digit(e.n, k, i) ELSE Digit(e.n, k, i)
BadIdx(e, seqs) == {<<k, i>> \in (1..Len(e.n)) \X (1..Prod(e.n, 1, Len(e.n))) :
                      i > Len(seqs[k]) \/ seqs[k][i] # <<Want(e, k, i), 0>>}

(* length of the basis domain over length of the problem domain, in the units logged (FS: 2 pi) *)
CM(e, k) == LET q == e.L[k] IN IF Lobatto(e) THEN <<2 * q[2], q[1]>> ELSE <<q[2], q[1]>>

Clauses(e) ==
  IF e.raised # "" THEN {<<"raised", e.raised>>}
  ELSE LET N == Prod(e.n, 1, Len(e.n))
       IN (IF e.N # N THEN {<<"number of points", e.N, N>>} ELSE {})
          \cup (IF e.zshape # N THEN {<<"points in z", e.zshape, N>>} ELSE {})
          \cup (IF \E k \in 1..Len(e.n) : e.xshape[k] # N THEN {<<"points in x", e.xshape, N>>} ELSE {})
          \cup LET bz == BadIdx(e, e.z) IN (IF bz = {} THEN {} ELSE {<<"z", bz>>})
          \cup LET bx == BadIdx(e, e.x) IN (IF bx = {} THEN {} ELSE {<<"x", bx>>})
          \cup {<<"map slope", k>> : k \in {k \in 1..Len(e.n) :
                   e.c[k] # <<Mu(1, Ra(1, CM(e, k)), Md(1, e.cs)), Mu(2, Ra(2, CM(e, k)), Md(2, e.cs)), 0>>}}
          \cup (IF e.ends THEN {} ELSE {<<"endpoints are not the ends of the domain">>})
          \cup (IF e.dtype = "float64" THEN {} ELSE {<<"dtype", e.dtype>>})
          \cup (IF e.keeps THEN {} ELSE {<<"domain attributes">>})

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET v == Clauses(Trace[l]) IN bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
