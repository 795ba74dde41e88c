---------------------------- MODULE TraceRegistry ----------------------------
(***************************************************************************)
(* Trace validation of registry histories recorded from the real code: the *)
(* state of the Registry model refined by the concrete basis objects.  The *)
(* object an evaluation concerns and its weights come from the state, not  *)
(* from the recorded line.                                                 *)
(***************************************************************************)
EXTENDS BasisMatrix, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, beh, objs, comps
vars == <<l, bad, beh, objs, comps>>

Full(o, e, d, f) == [fam |-> o.fam, dim |-> o.dim, m |-> o.m, nC |-> o.nC, full |-> f, d |-> d, L |-> o.L, w |-> o.w, b |-> o.b,
                     pts |-> e.pts, mul |-> [r \in 1..Len(e.pts) |-> <<>>], dirs |-> <<>>, sq |-> 0, inner |-> <<>>, sc |-> e.sc]
Judge(o, e, d, f) ==
  LET c == Full(o, e, d, f)
      cols == Columns(c)
  IN IF e.shape # <<Len(e.pts), Len(cols)>> THEN {<<"shape", e.shape, Len(cols)>>}
     ELSE {x \in {<<"value", r, BadCols(c, r, cols, e.obs[r])>> : r \in 1..Len(e.pts)} : x[3] # {}}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]

Init == l = 1 /\ bad = <<>> /\ beh = -1 /\ objs = Empty /\ comps = Empty
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l]
         os == IF e.b = beh THEN objs ELSE Empty
         cs == IF e.b = beh THEN comps ELSE Empty
         v == CASE e.raised # "" -> {<<"raised", e.raised>>}
                [] e.op = "eval" -> Judge(os[e.o], e, e.d, e.full)
                [] e.op = "run" -> Judge(os[cs[e.f].o], e, cs[e.f].d, cs[e.f].full)
                [] e.op = "get" -> (IF e.w = os[e.o].w /\ e.bb = os[e.o].b THEN {} ELSE {<<"weights read back", e.w, e.bb>>})
                [] OTHER -> {}
     IN /\ beh' = e.b
        /\ objs' = CASE e.raised # "" -> os
                     [] e.op = "create" -> Put(os, e.o, e.case)
                     [] e.op = "set" -> [os EXCEPT ![e.o].w = IF e.which \in {"w", "wb"} THEN e.w ELSE @,
                                                   ![e.o].b = IF e.which \in {"b", "wb"} THEN e.bb ELSE @]
                     [] OTHER -> os
        /\ comps' = IF e.op = "compile" THEN Put(cs, e.f, [o |-> e.o, d |-> e.d, full |-> e.full]) ELSE cs
        /\ bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED <<bad, beh, objs, comps>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
