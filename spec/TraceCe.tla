------------------------------- MODULE TraceCe -------------------------------
(***************************************************************************)
(* Trace validation of CeSolver.  A line is one operation on one of the    *)
(* solvers of a history; reading logs the item as exact residues, the free *)
(* function g having been replaced by the history's polynomial G.          *)
(*                                                                         *)
(* State, per solver and prime: the problem (v, C, K, s, g as polynomials) *)
(* and the user's switching functions / expression while in force.         *)
(***************************************************************************)
EXTENDS Ce, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, beh, st, dead
vars == <<l, bad, beh, st, dead>>

Polys(i, ps) == TLCEval([n \in 1..Len(ps) |-> Poly(i, ps[n])])
NoP == <<>>
Phi0(i, r) == IF r.up # NoP THEN r.up ELSE Phi(i, r.q)
Ce0(i, r) == IF r.uc # NoP THEN r.uc ELSE CeOf(i, r.q, Phi0(i, r))
(* an expression given to the solver: c * base + p, base: 0, G, own ce, the other's ce *)
Given(i, S, e, d) ==
  LET base == CASE d.m = "none" -> Zero [] d.m = "free" -> Poly(i, e.G)
                [] d.m = "own" -> Ce0(i, S[e.i]) [] d.m = "other" -> Ce0(i, S[3 - e.i])
  IN PAdd(i, PScale(i, Ra(i, d.c), base), Poly(i, d.p))
Effect(i, S, e) ==
  LET r == S[e.i] IN
  CASE e.op = "new" -> [S EXCEPT ![e.i] = [q |-> [v |-> e.v, C |-> e.C, K |-> Polys(i, e.K), s |-> Polys(i, e.s), g |-> Given(i, S, e, e.g)], up |-> NoP, uc |-> NoP]]
    [] e.op = "set" /\ e.n = "C" -> [S EXCEPT ![e.i].q.C = e.C, ![e.i].up = NoP, ![e.i].uc = NoP]
    [] e.op = "set" /\ e.n = "s" -> [S EXCEPT ![e.i].q.s = Polys(i, e.s), ![e.i].up = NoP, ![e.i].uc = NoP]
    [] e.op = "set" /\ e.n = "K" -> [S EXCEPT ![e.i].q.K = Polys(i, e.K), ![e.i].uc = NoP]
    [] e.op = "set" /\ e.n = "g" -> [S EXCEPT ![e.i].q.g = Given(i, S, e, e.g), ![e.i].uc = NoP]
    [] e.op = "set" /\ e.n = "phi" -> [S EXCEPT ![e.i].up = Polys(i, e.s), ![e.i].uc = NoP]
    [] e.op = "set" /\ e.n = "ce" -> [S EXCEPT ![e.i].uc = Given(i, S, e, e.g)]
    [] OTHER -> S

(* observed polynomial: terms <<a, b, residue 1, residue 2>> *)
RECURSIVE Obs(_, _, _, _)
Obs(i, ts, n, acc) == IF n > Len(ts) THEN acc ELSE Obs(i, ts, n + 1, [acc EXCEPT ![ts[n][1] + 1][ts[n][2] + 1] = ts[n][2 + i]])
Seen(i, ts) == Obs(i, ts, 1, Zero)
SameVec(i, os, ps) == Len(os) = Len(ps) /\ \A n \in 1..Len(ps) : Seen(i, os[n]) = ps[n]
SameMat(i, om, A) == Len(om) = Len(A) /\ \A r \in 1..Len(A) : Len(om[r]) = Len(A) /\ \A c \in 1..Len(A) : om[r][c][i] = A[r][c]
Points(C) == \A k \in 1..Len(C) : \A t \in 1..Len(C[k]) : C[k][t].k = "pt"

ReadOk(i, r, e) ==
  CASE e.n = "S" -> SameMat(i, e.mat, SMat(i, r.q))
    [] e.n = "alpha" -> SameMat(i, e.mat, Alpha(i, r.q))
    [] e.n = "phi" -> SameVec(i, e.obs, Phi0(i, r))
    [] e.n = "rho" -> SameVec(i, e.obs, Rho(i, r.q))
    [] e.n = "ce" -> SameVec(i, e.obs, <<Ce0(i, r)>>)
(* "True" always means that the constraints hold; with value and derivative constraints "False" means they do not *)
CheckOk(r1, r2, e) ==
  LET sat == Satisfies(1, r1.q, Ce0(1, r1)) /\ Satisfies(2, r2.q, Ce0(2, r2))
  IN (e.ret => sat) /\ ((e.decides /\ Points(r1.q.C) /\ sat) => e.ret)

(* printed code evaluated at points <<xn, xd, yn, yd, residues of d * value, residues of d>> *)
At(i, u, x, y) == SumSeq(i, TLCEval([a \in 1..D |-> Mu(i, Pw(i, x, a - 1), SumSeq(i, [b \in 1..D |-> Mu(i, u[a][b], Pw(i, y, b - 1))]))]))
(* derivatives and values of the expression that were printed *)
Stepped(i, p, t) ==
  IF t.k = "at" THEN Apply(i, t.v, << [k |-> "pt", c |-> <<1, 1>>, o |-> 0, a |-> t.a] >>, p)
  ELSE TLCEval([a \in 1..D |-> TLCEval([b \in 1..D |->
         LET x == IF t.v = 1 THEN a + t.o ELSE a
             y == IF t.v = 2 THEN b + t.o ELSE b
         IN IF x > D \/ y > D THEN 0 ELSE Mu(i, Fall(i, (IF t.v = 1 THEN x ELSE y) - 1, t.o), p[x][y])])])
RECURSIVE Steps(_, _, _, _)
Steps(i, p, ts, n) == IF n > Len(ts) THEN p ELSE Steps(i, Stepped(i, p, ts[n]), ts, n + 1)
PrintOk(i, r, e) == LET u == Steps(i, Ce0(i, r), e.steps, 1) IN \A k \in 1..Len(e.pts) : LET t == e.pts[k] IN t[4 + i] = Mu(i, t[6 + i], At(i, u, Ra(i, <<t[1], t[2]>>), Ra(i, <<t[3], t[4]>>)))

Clauses(S1, S2, e) ==
  IF e.raised # "" THEN {<<"raised", e.op, e.n, e.raised>>}
  ELSE IF ~e.ok THEN {<<"not a polynomial with rational coefficients", e.op, e.n>>}
  ELSE CASE e.op = "read" -> (IF ReadOk(1, S1[e.i], e) /\ ReadOk(2, S2[e.i], e) THEN {} ELSE {<<"value of", e.n>>})
         [] e.op = "print" -> (IF PrintOk(1, S1[e.i], e) /\ PrintOk(2, S2[e.i], e) THEN {} ELSE {<<"printed code has another value", e.text>>})
                              \cup (IF e.ret THEN {} ELSE {<<"sympy's own printer was changed">>})
         [] e.op = "check" -> (IF CheckOk(S1[e.i], S2[e.i], e) THEN {} ELSE {<<"checkCe returned", e.ret>>})
         [] OTHER -> (IF e.ret THEN {} ELSE {<<"the value set is not the value held", e.n>>})

Blank == [q |-> [v |-> 0, C |-> <<>>, K |-> <<>>, s |-> <<>>, g |-> <<>>], up |-> NoP, uc |-> NoP]
Fresh0 == <<<<Blank, Blank>>, <<Blank, Blank>>>>
Init == l = 1 /\ bad = <<>> /\ beh = -1 /\ st = Fresh0 /\ dead = FALSE
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]
               S == IF e.b = beh THEN st ELSE Fresh0
               skip == e.b = beh /\ dead
               v == IF skip THEN {} ELSE Clauses(S[1], S[2], e)
           IN /\ beh' = e.b
              /\ dead' = (skip \/ v # {})
              /\ st' = IF skip \/ v # {} THEN Fresh0 ELSE IF e.op \in {"new", "set"} THEN <<Effect(1, S[1], e), Effect(2, S[2], e)>> ELSE S
              /\ bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED <<bad, beh, st, dead>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
