------------------------------- MODULE Concur -------------------------------
(***************************************************************************)
(* Concurrent executions of compiled basis evaluations.                    *)
(*                                                                         *)
(* A compiled program runs without the interpreter lock, and independent   *)
(* calls in one program may run at the same time.  One execution           *)
(*   Map      maps its points into a work array,                           *)
(*   Eval     fills a second work array from the first, row by row,        *)
(*   Copy     writes the retained columns to its own output buffer,        *)
(* and any number of executions interleave at this grain.  The library     *)
(* gives every execution work arrays of its own (Own = TRUE); then under   *)
(* every schedule each output is the evaluation at the execution's own     *)
(* points.  With work arrays kept by the object (Own = FALSE) TLC finds a  *)
(* schedule that mixes two executions up: that is what the replayed        *)
(* concurrent runs (paths "threads" and "parallel") look for.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Procs, Rows, Own

VARIABLES pc, row, z, dark, out
vars == <<pc, row, z, dark, out>>

Buf(p) == IF Own THEN p ELSE 1
Pt(p, i) == 10 * p + i          \* the i-th point of execution p
F(v) == 7 * v + 3               \* any injective function of the point

Init == /\ pc = [p \in Procs |-> "map"] /\ row = [p \in Procs |-> 1]
        /\ z = [p \in Procs |-> [i \in 1..Rows |-> 0]] /\ dark = z /\ out = z

Adv(p, next) == IF row[p] < Rows THEN /\ row' = [row EXCEPT ![p] = @ + 1] /\ UNCHANGED pc
                ELSE /\ row' = [row EXCEPT ![p] = 1] /\ pc' = [pc EXCEPT ![p] = next]
Map(p)  == pc[p] = "map"  /\ z' = [z EXCEPT ![Buf(p)][row[p]] = Pt(p, row[p])] /\ Adv(p, "eval") /\ UNCHANGED <<dark, out>>
Eval(p) == pc[p] = "eval" /\ dark' = [dark EXCEPT ![Buf(p)][row[p]] = F(z[Buf(p)][row[p]])] /\ Adv(p, "copy") /\ UNCHANGED <<z, out>>
Copy(p) == pc[p] = "copy" /\ out' = [out EXCEPT ![p][row[p]] = dark[Buf(p)][row[p]]] /\ Adv(p, "done") /\ UNCHANGED <<z, dark>>
Next == \E p \in Procs : Map(p) \/ Eval(p) \/ Copy(p)
Spec == Init /\ [][Next]_vars

OwnResult == \A p \in Procs : pc[p] = "done" => \A i \in 1..Rows : out[p][i] = F(Pt(p, i))
=============================================================================
