------------------------------- MODULE Frozen -------------------------------
(***************************************************************************)
(* Functions of which some arguments were made constant (pe, pejit, and    *)
(* constant_arg_nums of the least-squares functions): the constants, named *)
(* in any order, keep the value they had when the function was made, the   *)
(* remaining arguments are passed in their original order.  The machine    *)
(* works as the code does (constants first, then the rest, then undo the   *)
(* permutation); Right compares with the definition.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NA, NV, MaxObj, MaxOps, Emit
VARIABLES objs, cur, got, want, hist
vars == <<objs, cur, got, want, hist>>
Inj(n) == UNION {{f \in [1..k -> 1..n] : \A a, b \in 1..k : a # b => f[a] # f[b]} : k \in 0..n}
Rng(s) == {s[k] : k \in DOMAIN s}
RECURSIVE Rest(_, _, _)
Rest(cs, n, k) == IF k > n THEN <<>> ELSE IF k \in Rng(cs) THEN Rest(cs, n, k + 1) ELSE <<k>> \o Rest(cs, n, k + 1)
Pos(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Init == objs = <<>> /\ cur = [k \in 1..NA |-> 0] /\ got = <<>> /\ want = <<>> /\ hist = <<>>
Log(e) == hist' = IF Emit THEN Append(hist, e) ELSE hist
New(n, cs) == /\ Len(objs) < MaxObj
              /\ objs' = Append(objs, [n |-> n, cs |-> cs, known |-> [k \in 1..Len(cs) |-> cur[cs[k]]], at |-> cur])
              /\ UNCHANGED <<cur, got, want>> /\ Log([op |-> "new", i |-> 0, k |-> 0, n |-> n, cs |-> cs])
Change(k) == cur' = [cur EXCEPT ![k] = (@ + 1) % NV] /\ UNCHANGED <<objs, got, want>> /\ Log([op |-> "change", i |-> 0, k |-> k, n |-> 0, cs |-> <<>>])
Call(i) == LET o == objs[i]
               order == o.cs \o Rest(o.cs, o.n, 1)
               flat == o.known \o [k \in 1..(o.n - Len(o.cs)) |-> cur[Rest(o.cs, o.n, 1)[k]]]
           IN /\ got' = [k \in 1..o.n |-> flat[Pos(order, k)]]
              /\ want' = [k \in 1..o.n |-> IF k \in Rng(o.cs) THEN o.at[k] ELSE cur[k]]
              /\ UNCHANGED <<objs, cur>> /\ Log([op |-> "call", i |-> i, k |-> 0, n |-> 0, cs |-> <<>>])
Next == /\ Emit => Len(hist) < MaxOps
        /\ \/ \E n \in 1..NA : \E cs \in Inj(n) : New(n, cs)
           \/ \E k \in 1..NA : Change(k)
           \/ \E i \in 1..Len(objs) : Call(i)
Spec == Init /\ [][Next]_vars
Right == got = want
Printed == (Emit /\ Len(hist) = MaxOps) => PrintT("BEH " \o ToJson(hist))
=============================================================================
