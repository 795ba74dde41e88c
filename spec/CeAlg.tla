-------------------------------- MODULE CeAlg --------------------------------
(***************************************************************************)
(* Properties of the constrained expression itself, for every problem made *)
(* of the functionals, support functions and data below whose support      *)
(* matrix is regular: the switching functions are dual to the constraints, *)
(* the expression satisfies them whatever the free function, returns a     *)
(* free function that already satisfies them unchanged, and expressions in *)
(* two variables can be nested.                                            *)
(***************************************************************************)
EXTENDS Ce
CONSTANTS MaxC, Level
VARIABLES q, q2, ph
vars == <<q, q2, ph>>
One == <<1, 1>>
Pt(o, a) == <<[k |-> "pt", c |-> One, o |-> o, a |-> <<a, 1>>, b |-> One]>>
Integ(a, b) == <<[k |-> "int", c |-> One, o |-> 0, a |-> <<a, 1>>, b |-> <<b, 1>>]>>
Rel(a, b) == <<[k |-> "pt", c |-> One, o |-> 0, a |-> <<a, 1>>, b |-> One], [k |-> "pt", c |-> <<-1, 1>>, o |-> 0, a |-> <<b, 1>>, b |-> One]>>
Funs == {Pt(0, 0), Pt(1, 1), Integ(0, 1), Rel(0, 2)} \cup (IF Level > 1 THEN {Pt(2, 1), Integ(-1, 2)} ELSE {})
V(v, e) == IF v = 1 THEN <<e, 0, 1, 1>> ELSE <<0, e, 1, 1>>
Sup(v) == {<<V(v, 0)>>, <<V(v, 1)>>, <<V(v, 2), V(v, 0)>>} \cup (IF Level > 1 THEN {<<V(v, 3)>>} ELSE {})
G == <<<<0, 0, 2, 1>>, <<3, 1, 1, 2>>, <<1, 2, -5, 1>>, <<4, 0, 7, 1>>>>
U == <<<<0, 0, 1, 1>>, <<2, 1, 3, 1>>, <<1, 2, -1, 3>>>>          \* the function both sets of data come from
Seqs(S, n) == {f \in [1..n -> S] : \A a, b \in 1..n : a # b => f[a] # f[b]}
Prob(v, C, s) == [v |-> v, C |-> C, s |-> TLCEval([n \in 1..Len(s) |-> Poly(1, s[n])]),
                  K |-> TLCEval([n \in 1..Len(C) |-> Apply(1, v, C[n], Poly(1, U))]), g |-> Poly(1, G)]
Probs(v) == {p \in {Prob(v, C, s) : C \in UNION {Seqs(Funs, n) : n \in 1..MaxC}, s \in UNION {Seqs(Sup(v), n) : n \in 1..MaxC}} :
               Len(p.C) = Len(p.s) /\ Det(1, SMat(1, p)) # 0}
(* the invariants are evaluated one step after the choice, which TLC's workers share *)
Init == ph = 0 /\ q \in Probs(1) /\ q2 \in {p \in Probs(2) : Len(p.C) = 1}
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<q, q2>>
Spec == Init /\ [][Next]_vars
Expr(p) == CeOf(1, p, Phi(1, p))
Dual == ph = 0 \/ (\A a, b \in 1..Len(q.C) : Apply(1, q.v, q.C[a], Phi(1, q)[b])[1][1] = (IF a = b THEN 1 ELSE 0))
Holds == ph = 0 \/ (Satisfies(1, q, Expr(q)))
Fixed == ph = 0 \/ (Expr([q EXCEPT !.g = Expr(q)]) = Expr(q) /\ Expr([q EXCEPT !.g = Poly(1, U)]) = Poly(1, U))
Nested == ph = 0 \/ (LET u == Expr([q2 EXCEPT !.g = Expr(q)]) IN Satisfies(1, q, u) /\ Satisfies(1, q2, u))
=============================================================================
