------------------------------ MODULE EgradGen ------------------------------
(* every differentiation history in bound, printed once (the function is left to the replay) *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Args, MaxLen
VARIABLE hist
Ops == {"egrad", "egradSimple"}
Wraps == {"none", "jit", "partial"}
Init == hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops, j \in Args, w \in Wraps :
             /\ ~(op = "egradSimple" /\ w = "partial")
             /\ hist' = Append(hist, [op |-> op, j |-> j, wrap |-> w])
        /\ PrintT("BEH " \o ToJson(hist'))
Spec == Init /\ [][Next]_hist
=============================================================================
