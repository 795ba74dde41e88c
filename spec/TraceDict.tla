------------------------------ MODULE TraceDict ------------------------------
(***************************************************************************)
(* Trace validation of dictionary histories recorded from TFCDict and      *)
(* TFCDictRobust.  After every operation the line holds the contents of    *)
(* every dictionary of the history (keys in order, shapes, values) and,    *)
(* where an operation produced a new dictionary from an old one, of the    *)
(* old one as well.  The specification computes what they must be.         *)
(***************************************************************************)
EXTENDS DictOps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, beh, ds, dead
vars == <<l, bad, beh, ds, dead>>

Inner(u, v) == LET RECURSIVE S(_)
                   S(n) == IF n = 0 THEN 0 ELSE u[n] * v[n] + S(n - 1)
               IN S(Len(u))
(* [ds: dictionaries afterwards, old: what the operand must still be, arr: flat array returned] *)
Effect(D, e) ==
  LET d == IF e.i >= 1 /\ e.i <= Len(D) THEN D[e.i] ELSE <<>>
      R(x) == [ds |-> [D EXCEPT ![e.i] = x], old |-> <<>>, arr |-> <<>>]
      A(x) == [ds |-> Append(D, x), old |-> d, arr |-> <<>>]
      N(x) == [ds |-> [D EXCEPT ![e.i] = x], old |-> d, arr |-> <<>>]
  IN CASE e.op = "new"    -> [ds |-> Append(D, e.ents), old |-> <<>>, arr |-> <<>>]
       [] e.op = "put"    -> R(Assign(d, e.ents[1]))
       [] e.op = "update" -> R(Update(d, e.ents, 1))
       [] e.op = "del"    -> R(Delete(d, e.key))
       [] e.op = "move"   -> R(MoveEnd(d, e.key))
       [] e.op = "round"  -> [ds |-> D, old |-> d, arr |-> ToArray(d)]
       [] e.op = "todict" -> A(FromArray(d, e.arr))
       [] e.op = "clone"  -> [ds |-> Append(D, e.ents), old |-> <<>>, arr |-> <<>>]
       [] e.op = "add"    -> A(CombD(d, D[e.j], 1))
       [] e.op = "sub"    -> A(CombD(d, D[e.j], -1))
       [] e.op = "iadd"   -> R(CombD(d, D[e.j], 1))
       [] e.op = "isub"   -> R(CombD(d, D[e.j], -1))
       [] e.op = "addA"   -> N(CombA(d, e.arr, 1))
       [] e.op = "subA"   -> N(CombA(d, e.arr, -1))
       [] e.op = "iaddA"  -> R(CombA(d, e.arr, 1))
       [] e.op = "isubA"  -> R(CombA(d, e.arr, -1))
       (* flatten / unflatten as a JAX tree, through jit, gradient of |flat|^2/2 (the dictionary itself), scaling *)
       [] e.op = "tree"   -> N(d)
       [] e.op = "jit"    -> N(Scale(d, 3))
       [] e.op = "grad"   -> N(d)
       [] e.op = "map"    -> N(Scale(d, -2))
Lossy == {"round", "todict", "add", "sub", "addA", "subA", "tree", "jit", "grad", "map"}

Clauses(D, e) ==
  IF e.raised # "" THEN {<<"raised", e.op, e.raised>>}
  ELSE LET w == Effect(D, e)
       IN (IF Len(e.after) = Len(w.ds) THEN {<<"dictionary", e.op, n, w.ds[n]>> : n \in {n \in 1..Len(w.ds) : e.after[n] # w.ds[n]}}
           ELSE {<<"number of dictionaries">>})
          \cup (IF e.op \in Lossy /\ e.old # w.old THEN {<<"the operand was changed", e.op>>} ELSE {})
          \cup (IF e.op = "round" /\ e.arr # w.arr THEN {<<"flat array", w.arr>>} ELSE {})
          \cup (IF e.type THEN {} ELSE {<<"the result has another type", e.op>>})

Init == l = 1 /\ bad = <<>> /\ beh = -1 /\ ds = <<>> /\ dead = FALSE
(* a history is judged up to its first rejected line *)
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]
               D == IF e.b = beh THEN ds ELSE << >>
               skip == e.b = beh /\ dead
               v == IF skip THEN {} ELSE Clauses(D, e)
           IN /\ beh' = e.b
              /\ dead' = (skip \/ v # {})
              /\ ds' = IF skip \/ v # {} THEN <<>> ELSE Effect(D, e).ds
              /\ bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED <<bad, beh, ds, dead>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
