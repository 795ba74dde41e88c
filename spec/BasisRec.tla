------------------------------ MODULE BasisRec ------------------------------
(***************************************************************************)
(* Design model: the row-by-row algorithm tfc uses to differentiate its    *)
(* polynomial bases (column k of order d from columns k-1, k-2 of order d  *)
(* and column k-1 of order d-1) computes the formal derivative.            *)
(*                                                                         *)
(* One behaviour fills the rows of order 0, 1, 2, ... of one family at one *)
(* point z of F_p.  Two polynomials of degree < #Z that agree on Z points  *)
(* are equal, so the invariant, checked on more points than the degree,    *)
(* is the polynomial identity itself (mod p).                              *)
(***************************************************************************)
EXTENDS Basis

CONSTANTS M,    \* functions per row (degree M-1)
          D,    \* highest derivative order
          Z     \* number of sample points, > M

VARIABLES fam, z, d, prev, cur,
          poly      \* coefficients of the d-th formal derivatives of phi_0, phi_1, ...
vars == <<fam, z, d, prev, cur, poly>>

ASSUME Z > M

(* columns 0 and 1 of the row of order e *)
Head2(f, e, x) ==
  CASE e = 0 -> <<1, IF f = "LaP" THEN Sb(1, 1, x) ELSE IF f = "HoPphy" THEN Mu(1, 2, x) ELSE x>>
    [] e = 1 -> <<0, IF f = "LaP" THEN Md(1, -1) ELSE IF f = "HoPphy" THEN 2 ELSE 1>>
    [] OTHER -> <<0, 0>>

(* column n+1 (index n+2) of order e from c = row of order e so far, q = row of order e-1 *)
NextCol(f, e, n, c, q, x) ==
  LET p1 == c[n + 1]                       \* column n
      p0 == c[n]                           \* column n-1
      lo == IF e = 0 THEN 0 ELSE Mu(1, e, q[n + 1])     \* e * column n of order e-1
  IN CASE f = "CP"     -> Sb(1, Ad(1, Mu(1, 2, lo), Mu(1, 2, Mu(1, x, p1))), p0)
       [] f = "LeP"    -> Mu(1, Iv(1, n + 1), Sb(1, Mu(1, 2*n + 1, Ad(1, lo, Mu(1, x, p1))), Mu(1, n, p0)))
       [] f = "LaP"    -> Mu(1, Iv(1, n + 1), Sb(1, Sb(1, Mu(1, Sb(1, 2*n + 1, x), p1), lo), Mu(1, n, p0)))
       [] f = "HoPpro" -> Sb(1, Ad(1, lo, Mu(1, x, p1)), Mu(1, n, p0))
       [] f = "HoPphy" -> Sb(1, Ad(1, Mu(1, 2, lo), Mu(1, 2, Mu(1, x, p1))), Mu(1, 2*n, p0))

Init == /\ fam \in PolyFams
        /\ z \in 0..(Z - 1)
        /\ d = 0 /\ prev = <<>> /\ cur = Head2(fam, 0, z)
        /\ poly = BuildPolys(1, fam, << <<1>>, First(1, fam) >>, M)

Col == /\ Len(cur) < M
       /\ cur' = Append(cur, NextCol(fam, d, Len(cur) - 1, cur, prev, z))
       /\ UNCHANGED <<fam, z, d, prev, poly>>

Row == /\ Len(cur) = M /\ d < D
       /\ d' = d + 1 /\ prev' = cur /\ cur' = Head2(fam, d + 1, z)
       /\ poly' = TLCEval([k \in 1..Len(poly) |-> PolyD(1, poly[k])])
       /\ UNCHANGED <<fam, z>>

Next == Col \/ Row
Spec == Init /\ [][Next]_vars

Exact == cur[Len(cur)] = EvalPoly(1, poly[Len(cur)], z)
Exact1 == Len(cur) = 2 => cur[1] = EvalPoly(1, poly[1], z)
View == <<fam, z, d, prev, cur>>
=============================================================================
