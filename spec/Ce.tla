---------------------------------- MODULE Ce ----------------------------------
(***************************************************************************)
(* Constrained expressions over bivariate polynomials, in the prime field  *)
(* F_p (i = 1, 2 selects the prime).                                       *)
(*                                                                         *)
(* A polynomial is a D x D matrix of coefficients, P[a+1][b+1] being that  *)
(* of x^a y^b.  A constraint functional is a sequence of terms             *)
(*   [k |-> "pt",  c, o, a]     c * (d/dv)^o u at v = a                    *)
(*   [k |-> "int", c, a, b]     c * integral of u over v from a to b       *)
(* acting along one variable v (1: x, 2: y); c, a, b are rationals.        *)
(***************************************************************************)
EXTENDS FieldP, FiniteSets, TLC

D == 6
Zero == [a \in 1..D |-> [b \in 1..D |-> 0]]
PAdd(i, p, q) == TLCEval([a \in 1..D |-> TLCEval([b \in 1..D |-> Ad(i, p[a][b], q[a][b])])])
PSub(i, p, q) == TLCEval([a \in 1..D |-> TLCEval([b \in 1..D |-> Sb(i, p[a][b], q[a][b])])])
PScale(i, c, p) == TLCEval([a \in 1..D |-> TLCEval([b \in 1..D |-> Mu(i, c, p[a][b])])])
(* product of polynomials; degrees never exceed D - 1 here *)
RECURSIVE ConvB(_, _, _, _, _, _)
ConvB(i, ra, rb, b, k, acc) == IF k > b THEN acc ELSE ConvB(i, ra, rb, b, k + 1, Ad(i, acc, Mu(i, ra[k], rb[b + 1 - k])))
RECURSIVE ConvA(_, _, _, _, _, _, _)
ConvA(i, p, q, a, b, k, acc) == IF k > a THEN acc ELSE ConvA(i, p, q, a, b, k + 1, Ad(i, acc, ConvB(i, p[k], q[a + 1 - k], b, 1, 0)))
PMul(i, p, q) == TLCEval([a \in 1..D |-> TLCEval([b \in 1..D |-> ConvA(i, p, q, a, b, 1, 0)])])

(* terms <<a, b, num, den>> *)
RECURSIVE FromTerms(_, _, _, _)
FromTerms(i, ts, n, acc) ==
  IF n > Len(ts) THEN acc
  ELSE FromTerms(i, ts, n + 1, [acc EXCEPT ![ts[n][1] + 1][ts[n][2] + 1] = Ad(i, @, Ra(i, <<ts[n][3], ts[n][4]>>))])
Poly(i, ts) == FromTerms(i, ts, 1, Zero)

(* what a functional's term does to v^e: a field element *)
RECURSIVE Fall(_, _, _)
Fall(i, e, o) == IF o = 0 THEN 1 ELSE Mu(i, e % P(i), Fall(i, e - 1, o - 1))
TermMono(i, t, e) ==
  Mu(i, Ra(i, t.c),
     IF t.k = "pt" THEN (IF e < t.o THEN 0 ELSE Mu(i, Fall(i, e, t.o), Pw(i, Ra(i, t.a), e - t.o)))
     ELSE Mu(i, Sb(i, Pw(i, Ra(i, t.b), e + 1), Pw(i, Ra(i, t.a), e + 1)), Iv(i, e + 1)))
Mono(i, f, e) == SumSeq(i, TLCEval([n \in 1..Len(f) |-> TermMono(i, f[n], e)]))

(* functional f along variable v applied to p: a polynomial in the other variable *)
Apply(i, v, f, p) ==
  LET m == TLCEval([e \in 1..D |-> Mono(i, f, e - 1)])
  IN IF v = 1 THEN TLCEval([a \in 1..D |-> TLCEval([b \in 1..D |-> IF a = 1 THEN SumSeq(i, [e \in 1..D |-> Mu(i, m[e], p[e][b])]) ELSE 0])])
     ELSE TLCEval([a \in 1..D |-> TLCEval([b \in 1..D |-> IF b = 1 THEN SumSeq(i, [e \in 1..D |-> Mu(i, m[e], p[a][e])]) ELSE 0])])

(* ------------------------------------------------------------- matrices *)
Minor(A, r, c) == [x \in 1..(Len(A) - 1) |-> [y \in 1..(Len(A) - 1) |-> A[IF x < r THEN x ELSE x + 1][IF y < c THEN y ELSE y + 1]]]
RECURSIVE Det(_, _)
Det(i, A) == IF Len(A) = 0 THEN 1
             ELSE SumSeq(i, TLCEval([c \in 1..Len(A) |-> LET t == Mu(i, A[1][c], Det(i, Minor(A, 1, c))) IN IF c % 2 = 1 THEN t ELSE Sb(i, 0, t)]))
Inv(i, A) == LET n == Len(A)
                 d == Iv(i, Det(i, A))
             IN TLCEval([r \in 1..n |-> TLCEval([c \in 1..n |->
                  LET t == Mu(i, d, Det(i, Minor(A, c, r))) IN IF (r + c) % 2 = 0 THEN t ELSE Sb(i, 0, t)])])
MMul(i, A, B) == TLCEval([r \in 1..Len(A) |-> TLCEval([c \in 1..Len(A) |-> SumSeq(i, [k \in 1..Len(A) |-> Mu(i, A[r][k], B[k][c])])])])
Ident(n) == [r \in 1..n |-> [c \in 1..n |-> IF r = c THEN 1 ELSE 0]]

(* ------------------------------------------------ constrained expression *)
(* a problem q: [v, C (functionals), K, s, g (polynomials mod P(i))] *)
SMat(i, q) == TLCEval([r \in 1..Len(q.C) |-> TLCEval([c \in 1..Len(q.s) |-> Apply(i, q.v, q.C[r], q.s[c])[1][1]])])
Alpha(i, q) == Inv(i, SMat(i, q))
RECURSIVE PSum(_, _, _)
PSum(i, ps, n) == IF n = 0 THEN Zero ELSE PAdd(i, ps[n], PSum(i, ps, n - 1))
Phi(i, q) == LET A == Alpha(i, q)
             IN TLCEval([c \in 1..Len(q.C) |-> PSum(i, TLCEval([r \in 1..Len(q.s) |-> PScale(i, A[r][c], q.s[r])]), Len(q.s))])
Rho(i, q) == TLCEval([k \in 1..Len(q.C) |-> PSub(i, q.K[k], Apply(i, q.v, q.C[k], q.g))])
CeOf(i, q, phi) == LET rho == Rho(i, q)
                   IN PAdd(i, q.g, PSum(i, TLCEval([k \in 1..Len(q.C) |-> PMul(i, phi[k], rho[k])]), Len(q.C)))
Satisfies(i, q, u) == \A k \in 1..Len(q.C) : Apply(i, q.v, q.C[k], u) = q.K[k]
=============================================================================
