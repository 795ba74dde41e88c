------------------------------ MODULE SolveAlg ------------------------------
(***************************************************************************)
(* Why the answer is determined: over the polynomials of degree <= Deg     *)
(* with coefficients in F_Q, an initial-value problem (first or second     *)
(* order, constant coefficients) and the two-point problem y'' = f have at *)
(* most one solution.  The polynomials are enumerated: q is a solution of  *)
(* the homogeneous problem with zero data only if q = 0.  (Q > Deg.)       *)
(* The constrained expression is also checked: y = g + (k - g(0)) phi      *)
(* meets its condition for every free polynomial g.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Q, Deg
VARIABLES q, a
Poly == [0..Deg -> 0..(Q - 1)]
D(p) == [k \in 0..Deg |-> IF k = Deg THEN 0 ELSE ((k + 1) * p[k + 1]) % Q]
Add(p, r) == [k \in 0..Deg |-> (p[k] + r[k]) % Q]
Scale(c, p) == [k \in 0..Deg |-> (c * p[k]) % Q]
Zero == [k \in 0..Deg |-> 0]
RECURSIVE At(_, _, _)
At(p, x, k) == IF k < 0 THEN 0 ELSE (p[Deg - k] + x * At(p, x, k - 1)) % Q
Val(p, x) == At(p, x, Deg)
First(p, c) == Add(D(p), Scale(c[1], p))
Second(p, c) == Add(D(D(p)), Add(Scale(c[2], D(p)), Scale(c[1], p)))
Init == q \in Poly /\ a \in (0..(Q - 1)) \X (0..1)
Next == UNCHANGED <<q, a>>
Spec == Init /\ [][Next]_<<q, a>>
OneIvp1 == \A x \in 0..2 : (First(q, a) = Zero /\ Val(q, x) = 0) => q = Zero
OneIvp2 == \A x \in 0..2 : (Second(q, a) = Zero /\ Val(q, x) = 0 /\ Val(D(q), x) = 0) => q = Zero
OneBvp == (D(D(q)) = Zero /\ Val(q, 0) = 0 /\ Val(q, 1) = 0) => q = Zero
Expr == \A x \in 0..2, k \in 0..2 : Val([q EXCEPT ![0] = (@ + k - Val(q, x)) % Q], x) = k
Same == \A x \in 0..2 : [q EXCEPT ![0] = (@ + Val(q, x) - Val(q, x)) % Q] = q
=============================================================================
