-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Design model of the collocation grid: one coordinate array per          *)
(* dimension, each built by repeating every node (inner product of the     *)
(* later dimensions) and tiling the block (product of the earlier ones).   *)
(* Property: together the arrays enumerate the tensor product exactly      *)
(* once, with the last dimension running fastest.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxDim, MaxN

VARIABLES n, k, arr, phase
vars == <<n, k, arr, phase>>

RECURSIVE Prod(_, _, _)
Prod(s, a, b) == IF a > b THEN 1 ELSE s[a] * Prod(s, a + 1, b)
Repeat(s, t) == [j \in 1..(Len(s) * t) |-> s[((j - 1) \div t) + 1]]
Tile(s, t)   == [j \in 1..(Len(s) * t) |-> s[((j - 1) % Len(s)) + 1]]

Init == /\ n \in UNION {[1..d -> 2..MaxN] : d \in 1..MaxDim}
        /\ k = 1 /\ phase = "nodes" /\ arr = <<>>
Nodes == /\ phase = "nodes" /\ k <= Len(n)
         /\ arr' = Append(arr, [j \in 1..n[k] |-> j - 1]) /\ phase' = "repeat" /\ UNCHANGED <<n, k>>
Rep == /\ phase = "repeat"
       /\ arr' = [arr EXCEPT ![k] = Repeat(@, Prod(n, k + 1, Len(n)))] /\ phase' = "tile" /\ UNCHANGED <<n, k>>
Til == /\ phase = "tile"
       /\ arr' = [arr EXCEPT ![k] = Tile(@, Prod(n, 1, k - 1))] /\ phase' = "nodes" /\ k' = k + 1 /\ UNCHANGED n
Next == Nodes \/ Rep \/ Til
Spec == Init /\ [][Next]_vars

Done == k > Len(n)
N == Prod(n, 1, Len(n))
(* the coordinates of point i by definition: its mixed-radix digits, last dimension least significant *)
Digit(kk, i) == ((i - 1) \div Prod(n, kk + 1, Len(n))) % n[kk]
Lengths == Done => \A kk \in 1..Len(n) : Len(arr[kk]) = N
Order == Done => \A kk \in 1..Len(n), i \in 1..N : arr[kk][i] = Digit(kk, i)
Once == Done => Cardinality({[kk \in 1..Len(n) |-> arr[kk][i]] : i \in 1..N}) = N
=============================================================================
