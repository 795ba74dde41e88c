------------------------------- MODULE Hybrid -------------------------------
(***************************************************************************)
(* A HybridUtfc: several univariate bases used side by side.               *)
(*                                                                         *)
(* State: the bases added so far (family and number of retained and of all *)
(* columns) and the evaluation asked for (accessor order, full flag,       *)
(* number of differentiations applied afterwards).  The columns of an      *)
(* evaluation are the columns of the bases, one basis after the other, in  *)
(* the order the bases were given, every one taken at the same derivative  *)
(* order and with the same full flag.  Every evaluation is printed and     *)
(* replayed into the real code with concrete bases.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxBlocks, MaxOps

Groups == << {"CP", "LeP", "ReLU"}, {"FS", "Sin"}, {"Sigmoid", "Swish"}, {"Tanh"} >>   \* families with a common exact unit
Acc == {0, 1, 2, 3, 4, 8}
VARIABLES g, blocks, ev
vars == <<g, blocks, ev>>

None == [d |-> -1, full |-> FALSE, ops |-> 0]
Init == g \in 1..Len(Groups) /\ blocks = <<>> /\ ev = None
Add == /\ ev = None /\ Len(blocks) < MaxBlocks
       /\ \E f \in Groups[g], kept \in 1..2, rem \in 0..1 :
            blocks' = Append(blocks, [fam |-> f, kept |-> kept, all |-> kept + rem])
       /\ UNCHANGED <<g, ev>>
Evaluate == /\ ev = None /\ blocks # <<>>
            /\ \E d \in Acc, full \in BOOLEAN, ops \in 0..MaxOps :
                 /\ ev' = [d |-> d, full |-> full, ops |-> ops]
                 /\ \A k \in 1..Len(blocks) : blocks[k].kept = 1 + (k % 2)       \* one concrete size per position is printed
                 /\ \A k \in 1..Len(blocks) : blocks[k].all = blocks[k].kept
                 /\ PrintT("BEH " \o ToJson([fams |-> [k \in 1..Len(blocks) |-> blocks[k].fam], d |-> d, full |-> full, ops |-> ops]))
            /\ UNCHANGED <<g, blocks>>
Next == Add \/ Evaluate
Spec == Init /\ [][Next]_vars

Width(k, full) == IF full THEN blocks[k].all ELSE blocks[k].kept
RECURSIVE Off(_, _)
Off(k, full) == IF k = 1 THEN 0 ELSE Off(k - 1, full) + Width(k - 1, full)
Total(full) == IF blocks = <<>> THEN 0 ELSE Off(Len(blocks), full) + Width(Len(blocks), full)
(* every column belongs to exactly one basis; the full evaluation has at least the retained columns *)
Partition == \A full \in BOOLEAN : \A col \in 1..Total(full) :
               Cardinality({k \in 1..Len(blocks) : Off(k, full) < col /\ col <= Off(k, full) + Width(k, full)}) = 1
FullIsMore == Total(TRUE) >= Total(FALSE)
=============================================================================
