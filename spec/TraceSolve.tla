----------------------------- MODULE TraceSolve -----------------------------
(***************************************************************************)
(* Trace validation of whole problems: a differential equation (or system, *)
(* ordinary or partial, linear or quadratic) with conditions whose only    *)
(* solution is the polynomial `sol`, solved with tfc.  One line = one      *)
(* problem.                                                                *)
(*   sol   per unknown, terms <<a, b, n, d>>: (n/d) x^a y^b                *)
(*   eqs   per equation, terms [c, e, f]: c x^e1 y^e2 * product of the     *)
(*         derivatives <<u, i, j>> of the unknowns in f;  rhs = the data   *)
(*   cons  conditions: sum of c * (d/dv)^o u at v = a, equal to `data`     *)
(*   obs   values (times den) of derivatives of the solution found         *)
(*   cobs  values of the conditions of the constrained expression when the *)
(*         unknown coefficients are arbitrary                              *)
(* The line is checked to be a problem that `sol` solves; SolveAlg shows   *)
(* on small fields that such problems have one solution, and the harness   *)
(* only makes problems whose operator and conditions have a trivial kernel *)
(***************************************************************************)
EXTENDS FieldP, Json, IOUtils, FiniteSets, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

(* falling factorial *)
RECURSIVE Fall(_, _)
Fall(n, k) == IF k = 0 THEN 1 ELSE n * Fall(n - 1, k - 1)
(* value of the (di, dj) derivative of a polynomial *)
Term(i, t, di, dj, x, y) ==
  IF t[1] < di \/ t[2] < dj THEN 0
  ELSE Mu(i, Ra(i, <<t[3], t[4]>>), Mu(i, Md(i, Fall(t[1], di) * Fall(t[2], dj)), Mu(i, Pw(i, x, t[1] - di), Pw(i, y, t[2] - dj))))
Val(i, ts, di, dj, x, y) == SumSeq(i, TLCEval([k \in 1..Len(ts) |-> Term(i, ts[k], di, dj, x, y)]))

RECURSIVE Prod(_, _, _, _, _, _)
Prod(i, e, fs, k, x, y) ==
  IF k = 0 THEN 1 ELSE Mu(i, Val(i, e.sol[fs[k][1] + 1], fs[k][2], fs[k][3], x, y), Prod(i, e, fs, k - 1, x, y))
Left(i, e, eq, x, y) ==
  SumSeq(i, TLCEval([k \in 1..Len(eq) |-> Mu(i, Mu(i, Md(i, eq[k].c), Mu(i, Pw(i, x, eq[k].e[1]), Pw(i, y, eq[k].e[2]))),
                                              Prod(i, e, eq[k].f, Len(eq[k].f), x, y))]))
(* condition c of the solution, the other variable being z *)
Cond(i, e, c, z) ==
  SumSeq(i, TLCEval([k \in 1..Len(c.t) |->
     LET t == c.t[k] a == Ra(i, t.a)
     IN Mu(i, Md(i, t.c), IF c.v = 1 THEN Val(i, e.sol[c.u + 1], t.o, 0, a, z) ELSE Val(i, e.sol[c.u + 1], 0, t.o, z, a))]))
Other(i, c, p) == Ra(i, p[3 - c.v])
Data(i, c, p) == Val(i, c.data, 0, 0, Ra(i, p[1]), Ra(i, p[2]))

Solves(i, e, p) ==
  /\ \A k \in 1..Len(e.eqs) : Left(i, e, e.eqs[k], Ra(i, p[1]), Ra(i, p[2])) = Val(i, e.rhs[k], 0, 0, Ra(i, p[1]), Ra(i, p[2]))
  /\ \A k \in 1..Len(e.cons) : Cond(i, e, e.cons[k], Other(i, e.cons[k], p)) = Data(i, e.cons[k], p)
Points(e) == {e.obs[k].p : k \in 1..Len(e.obs)}

Clauses(e) ==
  IF e.raised # "" THEN {<<"raised", e.raised>>}
  ELSE IF e.obs = <<>> \/ e.cobs = <<>> THEN {<<"ill-formed case">>}
  ELSE IF \E p \in Points(e) : ~(Solves(1, e, p) /\ Solves(2, e, p)) THEN {<<"ill-formed case: not a solution">>}
  ELSE {<<"not the solution", e.obs[k].u, e.obs[k].i, e.obs[k].j, e.obs[k].p>> : k \in {k \in 1..Len(e.obs) :
          LET o == e.obs[k]
          IN ~o.near \/ \E i \in {1, 2} : o.v[i] # Mu(i, o.den[i], Val(i, e.sol[o.u], o.i, o.j, Ra(i, o.p[1]), Ra(i, o.p[2])))}}
       \cup {<<"condition does not hold", e.cobs[k].k>> : k \in {k \in 1..Len(e.cobs) :
          LET o == e.cobs[k]
          IN ~o.near \/ \E i \in {1, 2} : o.v[i] # Mu(i, o.den[i], Data(i, e.cons[o.k], o.p))}}

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET v == Clauses(Trace[l])
           IN bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
Finish == /\ l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
