----------------------------- MODULE BasisMatrix -----------------------------
(***************************************************************************)
(* The basis matrix of utfc (dim = 1) and mtfc (any dim): which columns    *)
(* there are, in which order, and the value of every entry.                *)
(*                                                                         *)
(* A case c is a record                                                    *)
(*   fam, dim, m      family, dimension, functions per dimension (deg+1)   *)
(*   nC               constraint input as the user wrote it (see Removed)  *)
(*   full             TRUE: nC is ignored                                  *)
(*   d                derivative order per dimension                       *)
(*   L                length of the problem domain per dimension, <<n,d>>, *)
(*                    in x units (FS: in units of 2 pi)                    *)
(*   w, b             ELM weights: w[k][j], b[j] integers (Sin: b in units *)
(*                    of pi/6, Sigmoid/Swish: ln 2, Tanh: ln2 / 2)         *)
(*   pts[r][k]        (x - x0) of row r, dimension k, as <<n,d>> in the    *)
(*                    family's unit                                        *)
(*   mul[r]           integers the row is multiplied with (tangents of an  *)
(*                    automatic differentiation history)                   *)
(*   dirs, sq, inner  directional derivatives / derivative of a composition*)
(*                    (see DirVal, SqVal)                                  *)
(*   sc[r]            residues of the scale used to project row r          *)
(***************************************************************************)
EXTENDS Basis

IsElm(f) == f \in ElmFams

(* -------------------------------------------------------------- columns *)
(* all exponent tuples with total degree < m, the first variable running   *)
(* fastest, then the second, ...                                           *)
RECURSIVE Tuples(_, _)
Tuples(dim, top) ==     \* tuples of length dim with sum <= top, in order
  IF dim = 1 THEN TLCEval([j \in 1..(top + 1) |-> <<j - 1>>])
  ELSE LET Block(last) == LET t == Tuples(dim - 1, top - last)
                          IN TLCEval([k \in 1..Len(t) |-> Append(t[k], last)])
           RECURSIVE Cat(_, _)
           Cat(last, acc) == IF last > top THEN acc ELSE Cat(last + 1, acc \o Block(last))
       IN Cat(0, <<>>)

AllCols(c) == IF IsElm(c.fam) THEN TLCEval([j \in 1..c.m |-> <<j - 1>>]) ELSE Tuples(c.dim, c.m - 1)

(* A per-dimension entry is [k |-> "int", v |-> <<n>>] (the first n        *)
(* functions; n <= 0: none) or [k |-> "list", v |-> <<...>>].              *)
RemSet(e) == IF e.k = "int" THEN {j \in 0..63 : j < e.v[1]} ELSE {e.v[j] : j \in 1..Len(e.v)}

(* A column is removed iff every one of its factors is listed for its      *)
(* dimension (ELM and univariate: iff it is listed).                       *)
Removed(c, col) ==
  IF c.full THEN FALSE
  ELSE IF IsElm(c.fam) THEN col[1] \in RemSet(c.nC[1])
  ELSE \A k \in 1..c.dim : col[k] \in RemSet(c.nC[k])

Columns(c) == LET rem == [k \in 1..Len(c.nC) |-> RemSet(c.nC[k])]
                  Rm(col) == IF c.full THEN FALSE
                             ELSE IF IsElm(c.fam) THEN col[1] \in rem[1]
                             ELSE \A k \in 1..c.dim : col[k] \in rem[k]
                  Keep(col) == ~Rm(col)
              IN SelectSeq(AllCols(c), Keep)

(* --------------------------------------------------------------- values *)
(* c = (zf - z0)/(xf - x0) *)
CMul(c, k) == LET l == c.L[k]
              IN CASE c.fam \in {"CP", "LeP"} -> <<2 * l[2], l[1]>>
                   [] c.fam \in {"LaP", "HoPpro", "HoPphy"} -> <<1, 1>>
                   [] OTHER -> <<l[2], l[1]>>

(* position in the basis domain: z = c (x - x0) + z0, in F_p *)
ZPoly(i, c, r, k) == LET zz == Mu(i, Ra(i, c.pts[r][k]), Ra(i, CMul(c, k)))
                     IN IF c.fam \in {"CP", "LeP"} THEN Sb(i, zz, 1) ELSE zz

(* the same as an integer number of units (pi/6, ln 2, ...) *)
ZUnits(c, r, k) == LET q == c.pts[r][k]
                       m == CMul(c, k)
                   IN (q[1] * m[1]) \div (q[2] * m[2])
ZExact(c, r, k) == LET q == c.pts[r][k]
                       m == CMul(c, k)
                   IN (q[1] * m[1]) % (q[2] * m[2]) = 0

RECURSIVE SumUnits(_, _, _, _)
SumUnits(c, r, j, k) == IF k = 0 THEN c.b[j] ELSE c.w[k][j] * ZUnits(c, r, k) + SumUnits(c, r, j, k - 1)

RECURSIVE TotalD(_, _)
TotalD(d, k) == IF k = 0 THEN 0 ELSE d[k] + TotalD(d, k - 1)

RECURSIVE CPow(_, _, _, _)       \* prod_k c_k^d_k
CPow(i, c, d, k) == IF k = 0 THEN 1 ELSE Mu(i, Pw(i, Ra(i, CMul(c, k)), d[k]), CPow(i, c, d, k - 1))
RECURSIVE WPow(_, _, _, _, _)    \* prod_k w_kj^d_k
WPow(i, c, d, j, k) == IF k = 0 THEN 1 ELSE Mu(i, Pw(i, Md(i, c.w[k][j]), d[k]), WPow(i, c, d, j, k - 1))
RECURSIVE ProdSeq(_, _, _)
ProdSeq(i, s, k) == IF k = 0 THEN 1 ELSE Mu(i, Md(i, s[k]), ProdSeq(i, s, k - 1))

(* everything of row r that does not depend on the column *)
RowFac(i, c, r) == Mu(i, Mu(i, CPow(i, c, c.d, c.dim), ProdSeq(i, c.mul[r], Len(c.mul[r]))), c.sc[r][i])

RECURSIVE PolyProd(_, _, _, _, _)
PolyProd(i, c, zs, col, k) ==
  IF k = 0 THEN 1 ELSE Mu(i, PolyVal(i, c.fam, col[k], c.d[k], zs[k]), PolyProd(i, c, zs, col, k - 1))

(* Fourier: phi_0 = 1, phi_{2g-1} = sin(g z), phi_{2g} = cos(g z); doubled *)
FSVal(j, d, k) ==    \* <<a, b, g>>: 2 phi_j^(d)(k pi/6) = g^d (a + b sqrt 3)
  IF j = 0 THEN (IF d = 0 THEN <<2, 0, 1>> ELSE <<0, 0, 1>>)
  ELSE LET g == (j + 1) \div 2
           v == IF j % 2 = 1 THEN DSin(g * k, d) ELSE DCos(g * k, d)
       IN <<v[1], v[2], g>>
Mul3(i, x, y) == << Ad(i, Mu(i, x[1], y[1]), Mu(i, 3, Mu(i, x[2], y[2]))),
                    Ad(i, Mu(i, x[1], y[2]), Mu(i, x[2], y[1])) >>
RECURSIVE FSProd(_, _, _, _, _)
FSProd(i, c, ks, col, k) ==
  IF k = 0 THEN <<1, 0>>
  ELSE LET v == FSVal(col[k], c.d[k], ks[k])
           f == Pw(i, v[3], c.d[k])
       IN Mul3(i, <<Mu(i, Md(i, v[1]), f), Mu(i, Md(i, v[2]), f)>>, FSProd(i, c, ks, col, k - 1))

(* --------------------------------------------- judging one observed cell *)
IntCell(i, o, want) == o[i] = want

(* cell o = <<r1, r2, e>>: e = 0 when v*scale is an integer up to rounding *)
OkInt(o, w1, w2) == o[3] = 0 /\ o[1] = w1 /\ o[2] = w2
(* cell o = <<a1,a2,ea, b1,b2,eb>>: decodings of v*scale*2^dim as an integer and as an integer times sqrt 3 *)
OkTrig(o, x1, x2) == IF x1[2] = 0 /\ x2[2] = 0
                     THEN o[3] = 0 /\ o[1] = x1[1] /\ o[2] = x2[1]
                     ELSE x1[1] = 0 /\ x2[1] = 0 /\ o[6] = 0 /\ o[4] = x1[2] /\ o[5] = x2[2]
(* cell o: a sequence of candidate decodings <<A1, A2, B1, B2>>, v*scale = A ln 2 + B *)
OkSwish(o, A1, A2, B1, B2) == \E n \in 1..Len(o) : o[n] = <<A1, A2, B1, B2>>

(* ReLU by definition, away from the kink: sign of the (rational) argument *)
ReluNum(c, r, j) ==      \* an integer with the sign of w z + b (common denominator positive)
  LET RECURSIVE Den(_)
      Den(k) == IF k = 0 THEN 1 ELSE c.pts[r][k][2] * CMul(c, k)[2] * Den(k - 1)
      RECURSIVE Num(_, _)
      Num(k, den) == IF k = 0 THEN c.b[j] * den
                     ELSE Num(k - 1, den) + c.w[k][j] * c.pts[r][k][1] * CMul(c, k)[1] * (den \div (c.pts[r][k][2] * CMul(c, k)[2]))
  IN Num(c.dim, Den(c.dim))
RECURSIVE ReluArg(_, _, _, _, _)
ReluArg(i, c, r, j, k) == IF k = 0 THEN Md(i, c.b[j])
   ELSE Ad(i, Mu(i, Md(i, c.w[k][j]), Mu(i, Ra(i, c.pts[r][k]), Ra(i, CMul(c, k)))), ReluArg(i, c, r, j, k - 1))

(* ------------------------------------- directions and compositions (polynomial families) *)
(* value of the partial derivative with multi-index d at the row's point *)
PolyAt(i, c, zs, col, d) == Mu(i, CPow(i, c, d, c.dim), PolyProd(i, [c EXCEPT !.d = d], zs, col, c.dim))

(* c.dirs[j][r][k]: tangent of variable k in the j-th directional derivative: the directional derivatives of   *)
(* the matrix are the multilinear form of its partial derivatives                                              *)
RECURSIVE DirVal(_, _, _, _, _, _, _)
DirVal(i, c, r, zs, col, j, d) ==
  IF j > Len(c.dirs) THEN PolyAt(i, c, zs, col, d)
  ELSE SumSeq(i, TLCEval([k \in 1..c.dim |->
         IF c.dirs[j][r][k] = 0 THEN 0
         ELSE Mu(i, Md(i, c.dirs[j][r][k]), DirVal(i, c, r, zs, col, j + 1, [d EXCEPT ![k] = @ + 1]))]))

(* c.sq = n > 0: the n-th derivative in s of the matrix at x_1 = s^2, s = c.inner[r].  D^n of a formal sum     *)
(* sum_e q_e(s) H^(e)(s^2) follows from q H^(e) |-> q' H^(e) + 2 s q H^(e+1); sums are sequences indexed by e.  *)
SqStep(i, s) == LET n == Len(s)
                    Get(e) == IF e >= 1 /\ e <= n THEN s[e] ELSE <<0>>
                IN TLCEval([e \in 1..(n + 1) |->
                     LET a == PolyD(i, Get(e))
                         b == Get(e - 1)
                         len == IF Len(a) > Len(b) + 1 THEN Len(a) ELSE Len(b) + 1
                     IN TLCEval([k \in 1..len |-> Ad(i, Co(a, k), Mu(i, 2, Co(b, k - 1)))])])
RECURSIVE SqSum(_, _, _)
SqSum(i, n, s) == IF n = 0 THEN s ELSE SqSum(i, n - 1, SqStep(i, s))
SqVal(i, c, r, zs, col) ==
  LET terms == SqSum(i, c.sq, << <<1>> >>)
      s == Ra(i, c.inner[r])
  IN SumSeq(i, TLCEval([e \in 1..Len(terms) |->
       Mu(i, EvalPoly(i, terms[e], s), PolyAt(i, c, zs, col, [c.d EXCEPT ![1] = @ + (e - 1)]))]))

GenVal(i, c, r, zs, col) == IF c.sq > 0 THEN SqVal(i, c, r, zs, col) ELSE DirVal(i, c, r, zs, col, 1, c.d)

(* the map to the basis domain is exact in floating point, so that a point on a ReLU's kink is seen to be there; *)
(* the derivative there is, by convention, the one from the left of zero                                        *)
Dyadic(c) == \A k \in 1..c.dim : c.L[k][1] \in {1, 2, 4, 8, 16} /\ (\A r \in 1..Len(c.pts) : c.pts[r][k][2] \in {1, 2, 4, 8, 16, 32})

BadCols(c, r, cols, row) ==
  LET nd == TotalD(c.d, c.dim)
      f1 == RowFac(1, c, r)
      f2 == RowFac(2, c, r)
  IN CASE c.fam \in PolyFams ->
            LET z1 == TLCEval([k \in 1..c.dim |-> ZPoly(1, c, r, k)])
                z2 == TLCEval([k \in 1..c.dim |-> ZPoly(2, c, r, k)])
            IN IF c.sq > 0 \/ Len(c.dirs) > 0
               THEN {q \in 1..Len(cols) : ~OkInt(row[q], Mu(1, c.sc[r][1], GenVal(1, c, r, z1, cols[q])),
                                                         Mu(2, c.sc[r][2], GenVal(2, c, r, z2, cols[q])))}
               ELSE {q \in 1..Len(cols) : ~OkInt(row[q], Mu(1, f1, PolyProd(1, c, z1, cols[q], c.dim)),
                                                         Mu(2, f2, PolyProd(2, c, z2, cols[q], c.dim)))}
       [] c.fam = "FS" ->
            LET ks == TLCEval([k \in 1..c.dim |-> ZUnits(c, r, k) - 6])
                Sc(i, f, v) == <<Mu(i, f, v[1]), Mu(i, f, v[2])>>
            IN {q \in 1..Len(cols) : ~OkTrig(row[q], Sc(1, f1, FSProd(1, c, ks, cols[q], c.dim)),
                                                     Sc(2, f2, FSProd(2, c, ks, cols[q], c.dim)))}
       [] c.fam = "Sin" ->
            {q \in 1..Len(cols) :
               LET j == cols[q][1] + 1
                   v == DSin(SumUnits(c, r, j, c.dim), nd)
                   g1 == Mu(1, f1, WPow(1, c, c.d, j, c.dim))
                   g2 == Mu(2, f2, WPow(2, c, c.d, j, c.dim))
               IN ~OkTrig(row[q], <<Mu(1, g1, Md(1, v[1])), Mu(1, g1, Md(1, v[2]))>>,
                                  <<Mu(2, g2, Md(2, v[1])), Mu(2, g2, Md(2, v[2]))>>)}
       [] c.fam \in {"Sigmoid", "Tanh"} ->
            {q \in 1..Len(cols) :
               LET j == cols[q][1] + 1
                   k == SumUnits(c, r, j, c.dim)
                   Val(i) == IF k >= SAT THEN (IF nd = 0 THEN 1 ELSE 0)
                             ELSE IF k <= -SAT THEN (IF nd = 0 /\ c.fam = "Tanh" THEN Md(i, -1) ELSE 0)
                             ELSE IF c.fam = "Sigmoid" THEN DSig(i, nd, k) ELSE DTanh(i, nd, k)
               IN ~OkInt(row[q], Mu(1, Mu(1, f1, WPow(1, c, c.d, j, c.dim)), Val(1)),
                                 Mu(2, Mu(2, f2, WPow(2, c, c.d, j, c.dim)), Val(2)))}
       [] c.fam = "Swish" ->
            {q \in 1..Len(cols) :
               LET j == cols[q][1] + 1
                   k == SumUnits(c, r, j, c.dim)
                   g(i) == Mu(i, IF i = 1 THEN f1 ELSE f2, WPow(i, c, c.d, j, c.dim))
                   Sg(i, d) == IF k >= SAT THEN (IF d = 0 THEN 1 ELSE 0)
                               ELSE IF k <= -SAT THEN 0 ELSE DSig(i, d, k)
                   A(i) == Mu(i, g(i), Mu(i, Md(i, k), Sg(i, nd)))
                   B(i) == IF nd = 0 THEN 0 ELSE Mu(i, g(i), Mu(i, Md(i, nd), Sg(i, nd - 1)))
               IN ~OkSwish(row[q], A(1), A(2), B(1), B(2))}
       [] c.fam = "ReLU" ->
            {q \in 1..Len(cols) :
               LET j == cols[q][1] + 1
                   s == ReluNum(c, r, j)
                   Val(i) == IF nd >= 2 \/ s <= 0 THEN 0
                             ELSE IF nd = 0 THEN ReluArg(i, c, r, j, c.dim)
                             ELSE WPow(i, c, c.d, j, c.dim)
               IN IF s = 0 /\ nd = 1 /\ ~Dyadic(c) THEN FALSE     \* rounding may put the point on either side of the kink
                  ELSE ~OkInt(row[q], Mu(1, f1, Val(1)), Mu(2, f2, Val(2)))}
=============================================================================
