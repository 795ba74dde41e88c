------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Several basis objects in one process.  A basis object registers itself  *)
(* in a process-wide table and is referred to by its index from compiled   *)
(* programs, which run later, possibly after other objects were created,   *)
(* destroyed or changed.  Neural (ELM) bases hold weights which can be     *)
(* replaced at any time.                                                   *)
(*                                                                         *)
(* Property: an evaluation, compiled or not, is an evaluation of the       *)
(* object it was written for, with the weights that object holds now.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxObj, MaxOps, Kinds, Emit

VARIABLES objs,     \* objs[o] = [kind, ver, id, alive]; ver = number of the weights in force
          table,    \* table[id] = object registered under id
          comps,    \* comps[f] = [id] compiled programs
          hist, last
vars == <<objs, table, comps, hist, last>>

Live == {o \in 1..Len(objs) : objs[o].alive}
Log(e) == hist' = Append(hist, e)

Init == objs = <<>> /\ table = <<>> /\ comps = <<>> /\ hist = <<>> /\ last = <<>>

Create(k) == /\ Len(objs) < MaxObj
             /\ objs' = Append(objs, [kind |-> k, ver |-> 0, id |-> Len(table) + 1, alive |-> TRUE])
             /\ table' = Append(table, Len(objs) + 1)
             /\ Log([op |-> "create", o |-> Len(objs) + 1, k |-> k])
             /\ last' = <<>> /\ UNCHANGED comps
SetW(o, part) == /\ o \in Live /\ objs[o].kind \in {"elm", "nelm"}
                 /\ objs' = [objs EXCEPT ![o].ver = @ + 1]
                 /\ Log([op |-> "set", o |-> o, k |-> part])
                 /\ last' = <<>> /\ UNCHANGED <<table, comps>>
Compile(o) == /\ o \in Live /\ objs[o].kind # "raw" /\ Len(comps) < MaxObj + 1
              /\ comps' = Append(comps, [id |-> objs[o].id, o |-> o])
              /\ Log([op |-> "compile", o |-> o, k |-> ""])
              /\ last' = <<>> /\ UNCHANGED <<objs, table>>
Eval(o) == /\ o \in Live
           /\ last' = <<o, o, objs[o].ver>>
           /\ Log([op |-> "eval", o |-> o, k |-> ""]) /\ UNCHANGED <<objs, table, comps>>
Run(f) == /\ f \in 1..Len(comps)
          /\ LET t == table[comps[f].id] IN last' = <<comps[f].o, t, objs[t].ver>>
          /\ Log([op |-> "run", o |-> f, k |-> ""]) /\ UNCHANGED <<objs, table, comps>>
(* only objects made directly with the basis classes are ever destroyed *)
Drop(o) == /\ o \in Live /\ objs[o].kind = "raw"
           /\ objs' = [objs EXCEPT ![o].alive = FALSE]
           /\ Log([op |-> "drop", o |-> o, k |-> ""]) /\ last' = <<>> /\ UNCHANGED <<table, comps>>

Act == \/ \E k \in Kinds : Create(k)
       \/ \E o \in 1..Len(objs) : SetW(o, "w") \/ SetW(o, "b") \/ SetW(o, "wb") \/ Compile(o) \/ Eval(o) \/ Drop(o)
       \/ \E f \in 1..Len(comps) : Run(f)
Next == Len(hist) < MaxOps /\ Act
Spec == Init /\ [][Next]_vars

Isolated == last # <<>> => (last[1] = last[2] /\ last[3] = objs[last[1]].ver)
Indexed == \A o \in 1..Len(objs) : table[objs[o].id] = o
(* simulation: print complete histories *)
Printed == (Emit /\ Len(hist) = MaxOps) => PrintT("BEH " \o ToJson(hist))
View == <<objs, table, comps, last, Len(hist)>>
=============================================================================
