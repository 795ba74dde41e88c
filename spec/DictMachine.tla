----------------------------- MODULE DictMachine -----------------------------
(***************************************************************************)
(* Histories of several ordered dictionaries of arrays, with the record of *)
(* keys and slices every dictionary keeps for its flat form.  The record   *)
(* is brought up to date when it is used; the invariants say that what is  *)
(* then computed from it is the dictionary itself, that the slices         *)
(* partition the flat array, and that arithmetic leaves every other        *)
(* dictionary alone.  In simulation the histories are printed and replayed *)
(* into the real classes.                                                  *)
(***************************************************************************)
EXTENDS DictOps, Json

CONSTANTS KeySet, Sizes, MaxDicts, MaxOps, Emit, Vals,
          Mix       \* "flat", "arith" or "all": which operations the histories are made of

VARIABLES ds,       \* ds[i]: dictionary i
          rec,      \* rec[i]: recorded [keys, starts, stops]
          hist, used
vars == <<ds, rec, hist, used>>

Record(d) == [keys |-> Keys(d), lo |-> [j \in 1..Len(d) |-> Start(d, j)], hi |-> [j \in 1..Len(d) |-> Start(d, j + 1)]]
Ent(k, n, x) == [k |-> k, s |-> <<n>>, v |-> [j \in 1..n |-> x]]
Log(e) == hist' = IF Emit THEN Append(hist, e) ELSE <<Len(hist)>> \o hist
E0 == [op |-> "", i |-> 0, j |-> 0, k |-> 0, n |-> 0]
Set(i, d) == ds' = [ds EXCEPT ![i] = d]

Init == ds = <<>> /\ rec = <<>> /\ hist = <<>> /\ used = <<>>

New == /\ Len(ds) < MaxDicts
       /\ \E k \in KeySet, n \in Sizes, x \in Vals :
            /\ ds' = Append(ds, <<Ent(k, n, x)>>) /\ rec' = Append(rec, Record(<<Ent(k, n, x)>>))
            /\ Log([E0 EXCEPT !.op = "new", !.i = Len(ds) + 1, !.k = k, !.n = n])
       /\ used' = <<>>
(* item assignment does not touch the record; update() does *)
Put(i) == \E k \in KeySet, n \in Sizes, x \in Vals :
            /\ Set(i, Assign(ds[i], Ent(k, n, x))) /\ UNCHANGED rec /\ used' = <<>>
            /\ Log([E0 EXCEPT !.op = "put", !.i = i, !.k = k, !.n = n])
Upd(i) == \E k \in KeySet, n \in Sizes, x \in Vals :
            /\ Set(i, Assign(ds[i], Ent(k, n, x))) /\ rec' = [rec EXCEPT ![i] = Record(ds'[i])] /\ used' = <<>>
            /\ Log([E0 EXCEPT !.op = "update", !.i = i, !.k = k, !.n = n])
Del(i) == \E k \in KeySet : Has(ds[i], k) /\ Len(ds[i]) > 1
            /\ Set(i, Delete(ds[i], k)) /\ UNCHANGED rec /\ used' = <<>>
            /\ Log([E0 EXCEPT !.op = "del", !.i = i, !.k = k])
Move(i) == \E k \in KeySet : Has(ds[i], k) /\ Set(i, MoveEnd(ds[i], k)) /\ UNCHANGED rec /\ used' = <<>>
            /\ Log([E0 EXCEPT !.op = "move", !.i = i, !.k = k])
(* uses of the record: bring it up to date, then slice *)
Slice(d, r, a) == [j \in 1..Len(r.keys) |-> [k |-> r.keys[j], s |-> d[At(d, r.keys[j])].s, v |-> SubSeq(a, r.lo[j] + 1, r.hi[j])]]
Round(i) == /\ rec' = [rec EXCEPT ![i] = Record(ds[i])]
            /\ used' = <<i, ds[i], Slice(ds[i], rec'[i], ToArray(ds[i]))>>
            /\ UNCHANGED ds /\ Log([E0 EXCEPT !.op = "round", !.i = i])
ToDict(i) == /\ Len(ds) < MaxDicts
             /\ ds' = Append(ds, FromArray(ds[i], ToArray(Scale(ds[i], 2)))) /\ rec' = Append([rec EXCEPT ![i] = Record(ds[i])], Record(ds[i]))
             /\ used' = <<>> /\ Log([E0 EXCEPT !.op = "todict", !.i = i, !.j = Len(ds) + 1])
Bin(op, i, j, sgn) == /\ Compatible(ds[i], ds[j]) /\ Len(ds) < MaxDicts
             /\ ds' = Append(ds, CombD(ds[i], ds[j], sgn)) /\ rec' = Append([rec EXCEPT ![i] = Record(ds[i])], Record(ds[i]))
             /\ used' = <<>> /\ Log([E0 EXCEPT !.op = op, !.i = i, !.j = j])
In(op, i, j, sgn) == /\ Compatible(ds[i], ds[j])
             /\ Set(i, CombD(ds[i], ds[j], sgn)) /\ rec' = [rec EXCEPT ![i] = Record(ds[i])]
             /\ used' = <<>> /\ Log([E0 EXCEPT !.op = op, !.i = i, !.j = j])
(* another dictionary with the same entries in the opposite order *)
Clone(i) == /\ Len(ds) < MaxDicts
            /\ ds' = Append(ds, [j \in 1..Len(ds[i]) |-> ds[i][Len(ds[i]) + 1 - j]]) /\ rec' = Append(rec, Record(ds'[Len(ds')]))
            /\ used' = <<>> /\ Log([E0 EXCEPT !.op = "clone", !.i = i, !.j = Len(ds) + 1])
Flatly(op, i, sgn) == /\ used' = <<>>
             /\ rec' = [rec EXCEPT ![i] = Record(ds[i])]
             /\ Set(i, CombA(ds[i], ToArray(ds[i]), sgn)) /\ Log([E0 EXCEPT !.op = op, !.i = i])
Tree(op, i) == /\ used' = <<>> /\ UNCHANGED <<ds, rec>> /\ Log([E0 EXCEPT !.op = op, !.i = i])

Arith == Mix # "flat"
FlatM == Mix # "arith"
Act == \/ New
       \/ \E i \in 1..Len(ds) : (FlatM /\ (Put(i) \/ Del(i) \/ Move(i) \/ Round(i) \/ ToDict(i))) \/ Upd(i) \/ Clone(i)
                                \/ (Arith /\ Flatly("iaddA", i, 1)) \/ (Emit /\ Arith /\ (Flatly("addA", i, 1) \/ Flatly("isubA", i, -1) \/ Flatly("subA", i, -1)))
                                \/ (Emit /\ \E t \in {"tree", "jit", "grad", "map"} : Tree(t, i))
       \/ Arith /\ \E i, j \in 1..Len(ds) : Bin("add", i, j, 1) \/ In("iadd", i, j, 1)
                                \/ (Emit /\ (Bin("sub", i, j, -1) \/ In("isub", i, j, -1)))
Next == Len(hist) < MaxOps /\ Act
Spec == Init /\ [][Next]_vars

RoundTrip == used # <<>> => used[2] = used[3]
(* every record in use is a partition of the flat array into consecutive pieces, in key order *)
Partition == \A i \in 1..Len(ds) :
   LET r == Record(ds[i])
   IN \A j \in 1..Len(ds[i]) : r.lo[j] = (IF j = 1 THEN 0 ELSE r.hi[j - 1]) /\ r.hi[j] - r.lo[j] = Len(ds[i][j].v)
SubInverse == \A i, j \in 1..Len(ds) : Compatible(ds[i], ds[j]) => CombD(CombD(ds[i], ds[j], 1), ds[j], -1) = ds[i]
FlatSum == \A i, j \in 1..Len(ds) : Compatible(ds[i], ds[j]) /\ Keys(ds[i]) = Keys(ds[j]) =>
                CombD(ds[i], ds[j], 1) = CombA(ds[i], ToArray(ds[j]), 1)
Printed == (Emit /\ Len(hist) = MaxOps) => PrintT("BEH " \o ToJson(hist))
=============================================================================
