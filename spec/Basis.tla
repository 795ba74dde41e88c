-------------------------------- MODULE Basis --------------------------------
(***************************************************************************)
(* The meaning of tfc's basis functions, by definition.                    *)
(*                                                                         *)
(* A basis is a family phi_0, phi_1, ... on its own domain [z0,zf].  The   *)
(* problem domain [x0,xf] is mapped on it by z = (x - x0) c + z0 with      *)
(* c = (zf - z0)/(xf - x0).  The matrix tfc computes for derivative order  *)
(* d has entry (x_i, j) equal to  d^d/dx^d phi_j(z(x_i)) = c^d phi_j^(d)(z).*)
(*                                                                         *)
(* Polynomial families are given by the coefficients of their defining     *)
(* three-term recurrence and are differentiated formally; Fourier and ELM  *)
(* families by the closed derivatives of sin, cos and of the logistic and  *)
(* tanh functions as polynomials in themselves.  Nothing in this module    *)
(* follows the implementation's algorithms.                                *)
(***************************************************************************)
EXTENDS FieldP, TLC, FiniteSets

NMAX == 34          \* largest polynomial degree in the tables
DMAX == 16          \* largest derivative order in the tables

PolyFams == {"CP", "LeP", "LaP", "HoPpro", "HoPphy"}
ElmFams  == {"Sigmoid", "Tanh", "Sin", "Swish", "ReLU"}

(* ---------------------------------------------------------------- polys *)
Co(c, k) == IF k >= 1 /\ k <= Len(c) THEN c[k] ELSE 0   \* coefficient of z^(k-1)

(* (a + b z) * p + e * q on coefficient sequences *)
LinComb(i, a, b, p, e, q) ==
  LET n == (IF Len(p) + 1 > Len(q) THEN Len(p) + 1 ELSE Len(q))
  IN TLCEval([k \in 1..n |-> Ad(i, Ad(i, Mu(i, a, Co(p, k)), Mu(i, b, Co(p, k - 1))),
                                   Mu(i, e, Co(q, k)))])

First(i, f) == IF f = "LaP" THEN <<1, Md(i, -1)>>
               ELSE IF f = "HoPphy" THEN <<0, 2>> ELSE <<0, 1>>

(* phi_{n+1} from phi_n and phi_{n-1} *)
NextPoly(i, f, n, p, q) ==
  CASE f = "CP"     -> LinComb(i, 0, 2, p, Md(i, -1), q)
    [] f = "LeP"    -> LET v == Iv(i, n + 1) IN LinComb(i, 0, Mu(i, 2*n + 1, v), p, Md(i, -Mu(i, n, v)), q)
    [] f = "LaP"    -> LET v == Iv(i, n + 1) IN LinComb(i, Mu(i, 2*n + 1, v), Md(i, -v), p, Md(i, -Mu(i, n, v)), q)
    [] f = "HoPpro" -> LinComb(i, 0, 1, p, Md(i, -n), q)
    [] f = "HoPphy" -> LinComb(i, 0, 2, p, Md(i, -(2*n)), q)

RECURSIVE BuildPolys(_, _, _, _)
BuildPolys(i, f, acc, top) ==
  IF Len(acc) > top THEN acc
  ELSE LET n == Len(acc) - 1
       IN BuildPolys(i, f, Append(acc, NextPoly(i, f, n, acc[n + 1], acc[n])), top)

(* PolyTab[i][f][n+1] = coefficients of phi_n mod P(i) *)
PolyTab == TLCEval([i \in 1..2 |-> TLCEval([f \in PolyFams |->
             TLCEval(BuildPolys(i, f, << <<1>>, First(i, f) >>, NMAX))])])

(* falling factorial k(k-1)...(k-d+1) mod P(i) *)
RECURSIVE FFall(_, _, _)
FFall(i, k, d) == IF d = 0 THEN 1 ELSE IF k < d THEN 0 ELSE Mu(i, Md(i, k), FFall(i, k - 1, d - 1))
FF == TLCEval([i \in 1..2 |-> TLCEval([k \in 0..NMAX |-> TLCEval([d \in 0..DMAX |-> FFall(i, k, d)])])])

(* d-th formal derivative of the polynomial with coefficients c, at z *)
RECURSIVE Horner(_, _, _, _, _, _)
Horner(i, c, d, z, k, acc) ==
  IF k < d THEN acc
  ELSE Horner(i, c, d, z, k - 1, (((acc * z) % P(i)) + ((c[k + 1] * FF[i][k][d]) % P(i))) % P(i))

PolyVal(i, f, n, d, z) ==
  IF d > DMAX THEN Assert(FALSE, "derivative order beyond the table")
  ELSE LET c == PolyTab[i][f][n + 1] IN Horner(i, c, d, z, Len(c) - 1, 0)

(* ------------------------------------------------- trigonometric values *)
(* 2 sin(k pi/6) = a + b sqrt(3), as <<a, b>> *)
Sin2 == << <<0,0>>, <<1,0>>, <<0,1>>, <<2,0>>, <<0,1>>, <<1,0>>,
           <<0,0>>, <<-1,0>>, <<0,-1>>, <<-2,0>>, <<0,-1>>, <<-1,0>> >>
SinU(k) == Sin2[(k % 12) + 1]
(* d-th derivative of sin at k pi/6: sin^(d)(u) = sin(u + d pi/2) *)
DSin(k, d) == SinU(k + 3*d)
DCos(k, d) == SinU(k + 3 + 3*d)

(* ---------------------------------------- logistic and tanh derivatives *)
(* sigma' = sigma - sigma^2 and t' = 1 - t^2: the d-th derivative is a     *)
(* polynomial in sigma (resp. t), obtained by differentiating formally.    *)
PolyD(i, p) == IF Len(p) <= 1 THEN <<0>> ELSE TLCEval([k \in 1..(Len(p) - 1) |-> Mu(i, k, p[k + 1])])
PolyM(i, p, q) ==
  TLCEval([k \in 1..(Len(p) + Len(q) - 1) |->
     SumSeq(i, [j \in 1..Len(p) |-> IF k - j + 1 >= 1 /\ k - j + 1 <= Len(q) THEN Mu(i, p[j], q[k - j + 1]) ELSE 0])])
Deriv1(i, f) == IF f = "Sigmoid" THEN <<0, 1, Md(i, -1)>> ELSE <<1, 0, Md(i, -1)>>
RECURSIVE BuildAct(_, _, _)
BuildAct(i, f, acc) ==
  IF Len(acc) > DMAX THEN acc
  ELSE BuildAct(i, f, Append(acc, PolyM(i, PolyD(i, acc[Len(acc)]), Deriv1(i, f))))
ActTab == TLCEval([i \in 1..2 |-> TLCEval([f \in {"Sigmoid", "Tanh"} |-> BuildAct(i, f, << <<0, 1>> >>)])])

RECURSIVE Eval(_, _, _, _, _)
Eval(i, c, z, k, acc) == IF k = 0 THEN acc ELSE Eval(i, c, z, k - 1, (((acc * z) % P(i)) + c[k]) % P(i))
EvalPoly(i, c, z) == Eval(i, c, z, Len(c), 0)

(* sigma(k ln 2) = 2^k/(2^k+1);  tanh(k ln2 / 2) = (2^k - 1)/(2^k + 1) *)
SigAt(i, k)  == LET h == PwZ(i, 2, k) IN Mu(i, h, Iv(i, h + 1))
TanhAt(i, k) == LET h == PwZ(i, 2, k) IN Mu(i, Sb(i, h, 1), Iv(i, h + 1))
DSig(i, d, k)  == EvalPoly(i, ActTab[i]["Sigmoid"][d + 1], SigAt(i, k))
DTanh(i, d, k) == EvalPoly(i, ActTab[i]["Tanh"][d + 1], TanhAt(i, k))

(* beyond this argument the activation has saturated to double precision *)
SAT == 120
=============================================================================
