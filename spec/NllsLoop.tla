------------------------------ MODULE NllsLoop ------------------------------
(***************************************************************************)
(* The iteration of the nonlinear least squares on a problem whose error   *)
(* is multiplied by F[1]/F[2] in every step (see Lsq.tla), in one unknown. *)
(* Values are scaled by 2^(2*Cap).  The machine iterates as the code does; *)
(* the invariants say when it may stop, what it returns, what it printed.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Cap, Errs, Tols, Maxes, Consts
VARIABLES e0, fac, quad, c, tol, mx, e, d, it, pr, stop
vars == <<e0, fac, quad, c, tol, mx, e, d, it, pr, stop>>
Facs == {<<0, 1>>, <<1, 2>>, <<2, 1>>, <<-1, 1>>}
Sc == 2^(2 * Cap)
Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
(* e and d carry the scale 2^Cap *)
Res(x) == Max(IF quad THEN x * x ELSE Abs(x) * 2^Cap, c * Sc)
Init == /\ e0 \in Errs \cup {-a : a \in Errs} /\ fac \in Facs /\ quad \in BOOLEAN /\ c \in Consts /\ tol \in Tols /\ mx \in Maxes
        /\ e = e0 * 2^Cap /\ d = 2^Cap /\ it = 0 /\ pr = <<>> /\ stop = FALSE
(* tol is in units of 1/(2*Sc), odd, so that no comparison is an equality *)
Above(v) == 2 * v > tol
Go == Above(Res(e)) /\ it < mx /\ Above(Abs(d) * 2^Cap)
Step == /\ ~stop
        /\ IF Go THEN /\ e' = (e * fac[1]) \div fac[2] /\ d' = e - e' /\ it' = it + 1
                      /\ pr' = Append(pr, <<it, Res(e')>>) /\ stop' = FALSE
           ELSE stop' = TRUE /\ UNCHANGED <<e, d, it, pr>>
        /\ UNCHANGED <<e0, fac, quad, c, tol, mx>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
RECURSIVE Iter(_, _)
Iter(x, n) == IF n = 0 THEN x ELSE Iter((x * fac[1]) \div fac[2], n - 1)
Bound == it <= mx
Result == e = Iter(e0 * 2^Cap, it)
(* stops exactly when it must: every earlier iterate was above both tolerances, and the last is not, or the budget is used *)
Prompt == stop => \/ it = mx \/ ~Above(Res(e)) \/ ~Above(Abs(d) * 2^Cap)
Late == \A n \in 0..(it - 1) : Above(Res(Iter(e0 * 2^Cap, n))) /\ (n > 0 => Above(Abs(Iter(e0 * 2^Cap, n - 1) - Iter(e0 * 2^Cap, n)) * 2^Cap))
Printed == Len(pr) = it /\ \A n \in 1..it : pr[n] = <<n - 1, Res(Iter(e0 * 2^Cap, n))>>
Ends == <>stop
=============================================================================
