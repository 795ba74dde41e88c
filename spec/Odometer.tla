------------------------------ MODULE Odometer ------------------------------
(***************************************************************************)
(* Design model: the nested loops that enumerate the multivariate basis    *)
(* (an odometer over all index tuples, skipping those of too high a degree *)
(* and those made of constraint functions only) produce exactly the        *)
(* columns of BasisMatrix, in its order, for every constraint choice.      *)
(***************************************************************************)
EXTENDS BasisMatrix

CONSTANTS Dims, Ms

VARIABLES dim, m, nc, vec, out, nfull, done
vars == <<dim, m, nc, vec, out, nfull, done>>

(* constraint sets per dimension: any subset of the functions *)
Init == /\ dim \in Dims /\ m \in Ms
        /\ nc \in [1..dim -> SUBSET (0..(m - 1))]
        /\ vec = [k \in 1..dim |-> 0]
        /\ out = <<>> /\ nfull = 0 /\ done = FALSE

RECURSIVE Sum(_, _)
Sum(v, k) == IF k = 0 THEN 0 ELSE v[k] + Sum(v, k - 1)

InDegree == Sum(vec, dim) <= m - 1
IsConstraint == \A k \in 1..dim : vec[k] \in nc[k]

(* advance the odometer: the first index is the innermost loop *)
RECURSIVE Inc(_, _)
Inc(v, k) == IF k > dim THEN v
             ELSE IF v[k] < m - 1 THEN [v EXCEPT ![k] = @ + 1]
             ELSE Inc([v EXCEPT ![k] = 0], k + 1)
Last == \A k \in 1..dim : vec[k] = m - 1

Visit == /\ ~done
         /\ out' = IF InDegree /\ ~IsConstraint THEN Append(out, vec) ELSE out
         /\ nfull' = IF InDegree THEN nfull + 1 ELSE nfull
         /\ vec' = Inc(vec, 1)
         /\ done' = Last
         /\ UNCHANGED <<dim, m, nc>>
Next == Visit
Spec == Init /\ [][Next]_vars

SetToSeqN(S) == LET RECURSIVE F(_, _)
                    F(j, acc) == IF j > m THEN acc ELSE F(j + 1, IF j \in S THEN Append(acc, j) ELSE acc)
                IN F(0, <<>>)
Case == [fam |-> "CP", dim |-> dim, m |-> m, full |-> FALSE, nC |-> [k \in 1..dim |-> [k |-> "list", v |-> SetToSeqN(nc[k])]]]

Complete == done => /\ out = Columns(Case)
                    /\ nfull = Len(AllCols(Case))
(* the number of functions of total degree < m in dim variables is C(m-1+dim, dim) *)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
Count == done => nfull = Binom(m - 1 + dim, dim)
(* every product of constraint functions is removed, nothing else is *)
Removal == done => \A t \in {AllCols(Case)[j] : j \in 1..Len(AllCols(Case))} :
              (\E j \in 1..Len(out) : out[j] = t) <=> ~(\A k \in 1..dim : t[k] \in nc[k])
=============================================================================
