------------------------------ MODULE TraceLsq ------------------------------
(***************************************************************************)
(* Trace validation of LS, LsClass, ScaledQrLs, NLLS and NllsClass.        *)
(*                                                                         *)
(* Residuals (x flat in key order, A integer, complex A as A + i Ai):      *)
(*   LS, LsClass       r = w*(A x) - b - c   (ScaledQrLs: w = 1, c = 0)    *)
(*   NLLS, NllsClass   r = w*(A(x - b))^q + c     q = 1 or 2               *)
(* with the Jacobian handed to the solver being kap times the true one.    *)
(* The values of w, b, c are those of the call, except the roles in `const`*)
(* which keep the value they had when the solver was made.                 *)
(*                                                                         *)
(* Linear: the step d minimises |J d + r|, and has least norm: normal      *)
(* equations and orthogonality to the null space, in F_p.                  *)
(* Nonlinear: the problems are built so that every step multiplies the     *)
(* error by f = 1 - 1/(q kap), A having full column rank; iterates and     *)
(* residuals are dyadic rationals and computed exactly.                    *)
(***************************************************************************)
EXTENDS FieldP, Json, IOUtils, FiniteSets, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, beh, made, dead
vars == <<l, bad, beh, made, dead>>

Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Dot(_, _, _)
Dot(u, v, n) == IF n = 0 THEN 0 ELSE u[n] * v[n] + Dot(u, v, n - 1)
RECURSIVE DotP(_, _, _, _)
DotP(i, u, v, n) == IF n = 0 THEN 0 ELSE Ad(i, Mu(i, u[n] % P(i), v[n] % P(i)), DotP(i, u, v, n - 1))
Eff(m, e, r) == IF \E k \in 1..Len(m.const) : m.const[k] = r THEN m.vals[r] ELSE e.vals[r]

(* ------------------------------------------------------------- linear *)
Pad(v) == v \o [k \in 1..Len(v) |-> 0]
Wide(m, A, B) == TLCEval([r \in 1..Len(A) |-> A[r] \o [k \in 1..Len(A[r]) |-> -B[r][k]]])
                 \o TLCEval([r \in 1..Len(A) |-> B[r] \o A[r]])
Flat(e, x, y) == IF e.cplx THEN x \o y ELSE x
LinOk(i, m, e) ==
  LET A == IF e.cplx THEN Wide(m, m.A, m.Ai) ELSE m.A
      w == LET u == Eff(m, e, "w") IN IF e.cplx THEN u \o u ELSE u
      bc == LET b == Eff(m, e, "b") c == Eff(m, e, "c") u == [k \in 1..Len(b) |-> b[k] + c[k]] IN IF e.cplx THEN Pad(u) ELSE u
      n == Len(A[1])
      kap == Ra(i, m.kap)
      x0 == IF m.fn = "LS" THEN [k \in 1..n |-> 0] ELSE Flat(e, e.x0, e.x0i)
      r0 == TLCEval([k \in 1..Len(A) |-> (w[k] * Dot(A[k], x0, n) - bc[k]) % P(i)])
      J == TLCEval([k \in 1..Len(A) |-> TLCEval([j \in 1..n |-> Mu(i, kap, (w[k] * A[k][j]) % P(i))])])
      X == Flat(e, e.obs.v, e.obs.vi)
      d == TLCEval([k \in 1..n |-> Sb(i, Mu(i, X[k][i], Iv(i, e.den)), x0[k] % P(i))])
      rs == TLCEval([k \in 1..Len(A) |-> Ad(i, DotP(i, J[k], d, n), r0[k])])
      normal == \A j \in 1..n : DotP(i, [k \in 1..Len(A) |-> J[k][j]], rs, Len(A)) = 0
      nulls == {z \in 1..Len(e.null) : \A k \in 1..Len(A) : w[k] = 0 \/ Dot(A[k], e.null[z], n) = 0}
      least == \A z \in nulls : DotP(i, e.null[z], d, n) = 0
  IN <<normal, least>>
LinClauses(m, e) ==
  LET a == LinOk(1, m, e)
      b == LinOk(2, m, e)
  IN (IF a[1] /\ b[1] THEN {} ELSE {<<"not a minimiser of the linear model">>})
     \cup (IF a[2] /\ b[2] THEN {} ELSE {<<"not the minimiser of least norm">>})

(* ScaledQrLs also returns the condition number k of A with its columns scaled to unit length.  For two columns a, b that is *)
(* sqrt((1+t)/(1-t)) with t = |a.b|/(|a||b|); e.cn is ((k^2-1)/(k^2+1))^2 |a|^2 |b|^2, rounded (-1: not compared, one column: k = 1) *)
Col(A, j) == [k \in 1..Len(A) |-> A[k][j]]
CondClauses(m, e) ==
  IF m.fn # "Qr" \/ e.cn = -1 THEN {}
  ELSE LET want == IF Len(m.A[1]) = 1 THEN 0 ELSE LET d == Dot(Col(m.A, 1), Col(m.A, 2), Len(m.A)) IN d * d
       IN IF e.cn = want THEN {} ELSE {<<"condition number", want>>}

(* ---------------------------------------------------------- nonlinear *)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Vec(v, c) == [k \in 1..Len(v) |-> c * v[k]]
Sub(u, v) == [k \in 1..Len(u) |-> u[k] - v[k]]
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
Err(m, e, n) == Vec(Sub(Flat(e, e.x0, e.x0i), LET t == Eff(m, e, "b") IN IF e.cplx THEN Pad(t) ELSE t), Pow(m.f[1], n))   \* over f[2]^n
Big(e, v) == LET h == Len(v) \div 2 IN IF e.cplx THEN MaxOf({Abs(v[k]) + Abs(v[h + k]) : k \in 1..h}) ELSE MaxOf({Abs(v[k]) : k \in 1..Len(v)})
(* max |r| after n steps, times f[2]^(q n) *)
ResN(m, e, n) ==
  LET A == IF e.cplx THEN Wide(m, m.A, m.Ai) ELSE m.A
      w == LET u == Eff(m, e, "w") IN IF e.cplx THEN u \o u ELSE u
      c == LET u == Eff(m, e, "c") IN IF e.cplx THEN Pad(u) ELSE u
      en == Err(m, e, n)
      u == TLCEval([k \in 1..Len(A) |-> Dot(A[k], en, Len(en))])
  IN Big(e, [k \in 1..Len(A) |-> w[k] * (IF m.q = 2 THEN u[k] * u[k] ELSE u[k]) + c[k] * Pow(m.f[2], m.q * n)])
StepN(m, e, n) == Big(e, Sub(Vec(Err(m, e, n - 1), m.f[2]), Err(m, e, n)))                     \* max |dxi| of step n, times f[2]^n
Above(m, v, den) == v * 3 * Pow(2, m.tol[2]) > m.tol[1] * den
Go(m, e, n) == IF m.cond >= 0 THEN n < m.cond
               ELSE /\ Above(m, ResN(m, e, n), Pow(m.f[2], m.q * n)) /\ n < m.mx
                    /\ (n = 0 \/ Above(m, StepN(m, e, n), Pow(m.f[2], n)))
RECURSIVE Count(_, _, _)
Count(m, e, n) == IF Go(m, e, n) THEN Count(m, e, n + 1) ELSE n
Scaled(m, e, n) == [k \in 1..Len(Err(m, e, n)) |-> Err(m, e, n)[k] + (LET t == Eff(m, e, "b") IN IF k <= Len(t) THEN t[k] ELSE 0) * Pow(m.f[2], n)]
NonClauses(m, e) ==
  IF m.q * m.kap[1] * m.f[1] # m.f[2] * (m.q * m.kap[1] - m.kap[2]) THEN {<<"ill-formed case">>}
  ELSE IF m.body   \* the user's body: x -> 3 x, it -> it + 2, while it < cond
  THEN LET n == (m.cond + 1) \div 2
       IN (IF e.obs.it = 2 * n /\ Flat(e, e.obs.x, e.obs.xi) = Vec(Flat(e, e.x0, e.x0i), Pow(3, n)) THEN {} ELSE {<<"user body and condition">>})
  ELSE LET n == Count(m, e, 0)
           it == e.obs.it
       IN (IF it = n \/ (m.slack /\ it \in n..(n + 1)) THEN {} ELSE {<<"iterations", n>>})
          \cup (IF Flat(e, e.obs.x, e.obs.xi) = Scaled(m, e, it) THEN {} ELSE {<<"solution", n>>})
          \cup (IF ~m.print THEN (IF e.prints = <<>> THEN {} ELSE {<<"printed although not asked to">>})
                ELSE IF Len(e.prints) # it /\ ~(m.timer /\ Len(e.prints) > it) THEN {<<"number of printed lines">>}
                \* with a timer the lines of the warm-up come first
                ELSE LET o == Len(e.prints) - it
                     IN {<<"printed line", k>> : k \in {k \in 1..it : e.prints[o + k] # <<k - 1, ResN(m, e, k)>>}})

Clauses(m, e) ==
  IF e.raised # "" THEN {<<"raised", e.raised>>}
  ELSE IF e.op = "new" THEN {}
  ELSE (IF e.obs.keys = m.keys /\ e.obs.shapes = m.shapes /\ e.obs.type THEN {} ELSE {<<"structure of the result">>})
       \cup (IF e.obs.near THEN {} ELSE {<<"not on the grid of possible values">>})
       \cup (IF e.kept THEN {} ELSE {<<"the caller's arguments were changed">>})
       \cup (IF e.timed THEN {} ELSE {<<"timer">>})
       \cup (IF e.obs.keys = m.keys /\ e.obs.shapes = m.shapes
             THEN IF m.fn \in {"LS", "LsClass", "Qr"} THEN LinClauses(m, e) \cup CondClauses(m, e) ELSE NonClauses(m, e) ELSE {})

Init == l = 1 /\ bad = <<>> /\ beh = -1 /\ made = <<>> /\ dead = FALSE
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]
               m == IF e.op = "new" THEN e ELSE IF e.b = beh THEN made ELSE <<>>
               skip == e.op # "new" /\ e.b = beh /\ dead
               v == IF skip THEN {} ELSE Clauses(m, e)
           IN /\ beh' = e.b /\ dead' = (skip \/ v # {}) /\ made' = m
              /\ bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED <<bad, beh, made, dead>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
