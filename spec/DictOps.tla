------------------------------- MODULE DictOps -------------------------------
(***************************************************************************)
(* Meaning of tfc's ordered dictionaries of arrays.  A dictionary is a     *)
(* sequence of entries [k, s, v]: key, shape, and values in row-major      *)
(* order; the sequence order is the key order.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Keys(d) == [j \in 1..Len(d) |-> d[j].k]
Has(d, k) == \E j \in 1..Len(d) : d[j].k = k
At(d, k) == CHOOSE j \in 1..Len(d) : d[j].k = k
RECURSIVE Size(_, _)
Size(s, n) == IF n = 0 THEN 1 ELSE s[n] * Size(s, n - 1)

Assign(d, e) == IF Has(d, e.k) THEN [d EXCEPT ![At(d, e.k)] = e] ELSE Append(d, e)
RECURSIVE Update(_, _, _)
Update(d, es, n) == IF n > Len(es) THEN d ELSE Update(Assign(d, es[n]), es, n + 1)
Delete(d, k) == LET j == At(d, k) IN SubSeq(d, 1, j - 1) \o SubSeq(d, j + 1, Len(d))
MoveEnd(d, k) == Append(Delete(d, k), d[At(d, k)])
MoveFront(d, k) == <<d[At(d, k)]>> \o Delete(d, k)

(* the flat array: the entries one after the other in key order *)
RECURSIVE Flat(_, _)
Flat(d, n) == IF n = 0 THEN <<>> ELSE Flat(d, n - 1) \o d[n].v
ToArray(d) == Flat(d, Len(d))
Start(d, n) == Len(Flat(d, n - 1))
FromArray(d, a) == [j \in 1..Len(d) |-> [d[j] EXCEPT !.v = SubSeq(a, Start(d, j) + 1, Start(d, j) + Len(d[j].v))]]

Comb(u, v, sgn) == [j \in 1..Len(u) |-> u[j] + sgn * v[j]]
CombD(d, o, sgn) == [j \in 1..Len(d) |-> [d[j] EXCEPT !.v = Comb(d[j].v, o[At(o, d[j].k)].v, sgn)]]
CombA(d, a, sgn) == CombD(d, FromArray(d, a), sgn)
Scale(d, t) == [j \in 1..Len(d) |-> [d[j] EXCEPT !.v = [i \in 1..Len(d[j].v) |-> t * d[j].v[i]]]]

(* o can be combined with d: it has all of d's keys, with the same shapes *)
Compatible(d, o) == \A j \in 1..Len(d) : Has(o, d[j].k) /\ o[At(o, d[j].k)].s = d[j].s
=============================================================================
