------------------------------ MODULE CeMachine ------------------------------
(***************************************************************************)
(* A constrained-expression solver that caches what it has computed.       *)
(* Inputs (support functions s, operators C, data K, free function g) have *)
(* version numbers; a derived item's value is the tuple of versions it was *)
(* computed from.  Setting an input marks items stale, reading an item     *)
(* recomputes stale ones.  Invariant: what a read returns is the value for *)
(* the current inputs, where a switching function / expression set by the  *)
(* user counts until an input it depends on changes.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NV, MaxOps, Emit
Inputs == {"s", "C", "K", "g"}
Items == {"S", "alpha", "phi", "rho", "ce"}
VARIABLES v,      \* versions of the inputs
          up, uc, \* version of the user's phi / ce, -1 when not in force
          cache, stale, got, hist
vars == <<v, up, uc, cache, stale, got, hist>>

(* what the items mean *)
VS == <<"S", v["s"], v["C"]>>
VPhi == IF up >= 0 THEN <<"user", up>> ELSE <<"phi", v["s"], v["C"]>>
VRho == <<"rho", v["C"], v["K"], v["g"]>>
VCe == IF uc >= 0 THEN <<"user", uc>> ELSE <<"ce", v["g"], VPhi, VRho>>
Meaning == [n \in Items |-> CASE n = "S" -> VS [] n = "alpha" -> VS [] n = "phi" -> VPhi [] n = "rho" -> VRho [] n = "ce" -> VCe]

None == <<"none">>
Init == /\ v = [n \in Inputs |-> 0] /\ up = -1 /\ uc = -1
        /\ cache = [n \in Items |-> None] /\ stale = Items /\ got = <<"none", None, None>> /\ hist = <<>>
Log(e) == hist' = IF Emit THEN Append(hist, e) ELSE hist
Drop(S) == stale' = stale \cup S /\ cache' = [n \in Items |-> IF n \in stale \cup S THEN None ELSE cache[n]]
Affects == [n \in Inputs |-> CASE n = "s" -> {"S", "alpha", "phi", "ce"} [] n = "C" -> Items [] n = "K" -> {"rho", "ce"} [] n = "g" -> {"rho", "ce"}]
SetIn(n) == /\ v' = [v EXCEPT ![n] = (@ + 1) % NV]
            /\ Drop(Affects[n]) /\ up' = (IF n \in {"s", "C"} THEN -1 ELSE up) /\ uc' = -1
            /\ got' = <<"none", None, None>> /\ Log([op |-> "set", n |-> n])
SetPhi == /\ up' = (IF up < 0 THEN 0 ELSE (up + 1) % NV) /\ uc' = -1 /\ UNCHANGED v
          /\ stale' = (stale \cup {"ce"}) \ {"phi"}
          /\ cache' = [cache EXCEPT !["phi"] = <<"user", up'>>, !["ce"] = None]
          /\ got' = <<"none", None, None>> /\ Log([op |-> "set", n |-> "phi"])
SetCe == /\ uc' = (IF uc < 0 THEN 0 ELSE (uc + 1) % NV) /\ UNCHANGED <<v, up>>
         /\ stale' = stale \ {"ce"} /\ cache' = [cache EXCEPT !["ce"] = <<"user", uc'>>]
         /\ got' = <<"none", None, None>> /\ Log([op |-> "set", n |-> "ce"])
(* reading: what is stale is recomputed from what is read in turn *)
Needs(n) == CASE n = "S" -> {"S"} [] n = "alpha" -> (IF "alpha" \in stale THEN {"alpha", "S"} ELSE {"alpha"})
              [] n = "phi" -> (IF "phi" \in stale THEN {"phi", "alpha", "S"} ELSE {"phi"}) [] n = "rho" -> {"rho"}
              [] n = "ce" -> (IF "ce" \in stale THEN {"ce", "rho"} \cup (IF "phi" \in stale THEN {"phi", "alpha", "S"} ELSE {"phi"}) ELSE {"ce"})
CalcS == IF "S" \in stale THEN <<"S", v["s"], v["C"]>> ELSE cache["S"]
CalcA == IF "alpha" \in stale THEN CalcS ELSE cache["alpha"]
CalcP == IF "phi" \in stale THEN <<"phi", CalcA[2], CalcA[3]>> ELSE cache["phi"]
CalcR == IF "rho" \in stale THEN <<"rho", v["C"], v["K"], v["g"]>> ELSE cache["rho"]
CalcC == IF "ce" \in stale THEN <<"ce", v["g"], CalcP, CalcR>> ELSE cache["ce"]
Calc(n) == CASE n = "S" -> CalcS [] n = "alpha" -> CalcA [] n = "phi" -> CalcP [] n = "rho" -> CalcR [] n = "ce" -> CalcC
Read(n) == /\ LET now == Needs(n) \cap stale
              IN /\ stale' = stale \ now
                 /\ cache' = [m \in Items |-> IF m \in now THEN Calc(m) ELSE cache[m]]
           /\ got' = <<n, Calc(n), Meaning[n]>> /\ UNCHANGED <<v, up, uc>> /\ Log([op |-> "read", n |-> n])
Check == /\ Emit /\ UNCHANGED <<v, up, uc, cache, stale, got>> /\ Log([op |-> "check", n |-> ""])
Next == /\ Emit => Len(hist) < MaxOps
        /\ \/ \E n \in Inputs : SetIn(n)
           \/ SetPhi \/ SetCe \/ Check
           \/ \E n \in Items : Read(n)
Spec == Init /\ [][Next]_vars
Fresh == got[2] = got[3]
Coherent == \A n \in Items : n \notin stale => cache[n] = Meaning[n]
Printed == (Emit /\ Len(hist) = MaxOps) => PrintT("BEH " \o ToJson(hist))
=============================================================================
