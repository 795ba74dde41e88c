------------------------------- MODULE Panels -------------------------------
(***************************************************************************)
(* A figure with a grid of panels, as MakePlot (matplotlib and plotly)     *)
(* offers it.  State: the grid (which places hold a panel), the camera of  *)
(* every panel, the view distance kept by the figure, the traces drawn and *)
(* the panel each belongs to.  Operations: view, add a trace, resize.      *)
(* Simulated histories are replayed into the real classes.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxR, MaxC, MaxOps, Gen      \* Gen: more values, and print the histories
Az == IF Gen THEN {-90, 0, 30, 60, 150, 210} ELSE {0, 30}
El == IF Gen THEN {-150, -30, 0, 60, 90, 120, 180, 330} ELSE {0}
Dist == {0, 1, 3}                     \* 0: not given
Default == -1                         \* the figure's initial distance (2.5)

VARIABLES nr, nc, cam, dist, traces, size, h
vars == <<nr, nc, cam, dist, traces, size, h>>
Place(j, k, cols) == (j - 1) * cols + k
Init == /\ nr \in 1..MaxR /\ nc \in 1..MaxC
        /\ cam = [p \in 1..(nr * nc) |-> <<>>] /\ dist = Default /\ traces = <<>> /\ size = <<>>
        /\ h = << [op |-> "new", nr |-> nr, nc |-> nc] >>
View == \E j \in 1..nr, k \in 1..nc, a \in Az, e \in El, d \in Dist :
          LET dd == IF d = 0 THEN dist ELSE d
          IN /\ dist' = dd
             /\ cam' = [cam EXCEPT ![Place(j, k, nc)] = <<a, e, dd>>]
             /\ h' = Append(h, [op |-> "view", j |-> j, k |-> k, az |-> a, el |-> e, d |-> d])
             /\ UNCHANGED <<nr, nc, traces, size>>
Draw == \E j \in 1..nr, k \in 1..nc :
          /\ traces' = Append(traces, Place(j, k, nc))
          /\ h' = Append(h, [op |-> "draw", j |-> j, k |-> k])
          /\ UNCHANGED <<nr, nc, cam, dist, size>>
Resize == \E w \in {300, 512}, g \in {240, 700} :
          /\ size' = <<w, g>> /\ h' = Append(h, [op |-> "size", w |-> w, g |-> g])
          /\ UNCHANGED <<nr, nc, cam, dist, traces>>
Next == Len(h) <= MaxOps /\ (View \/ Draw \/ Resize) /\ (IF Gen /\ Len(h) = MaxOps THEN PrintT("BEH " \o ToJson(h')) ELSE TRUE)
Spec == Init /\ [][Next]_vars

(* places are numbered row by row, one to one *)
OneToOne == \A a, b \in (1..nr) \X (1..nc) : Place(a[1], a[2], nc) = Place(b[1], b[2], nc) => a = b
Onto == {Place(a[1], a[2], nc) : a \in (1..nr) \X (1..nc)} = 1..(nr * nc)
(* the last view of a panel is the one in force, whatever happened to the others *)
LastView == \A j \in 1..nr, k \in 1..nc :
   LET mine == {i \in 1..Len(h) : h[i].op = "view" /\ h[i].j = j /\ h[i].k = k}
       c == cam[Place(j, k, nc)]
   IN IF mine = {} THEN c = <<>>
      ELSE LET i == CHOOSE i \in mine : \A q \in mine : q <= i
               ds == {q \in 1..i : h[q].op = "view" /\ h[q].d # 0}
               dd == IF ds = {} THEN Default ELSE h[CHOOSE q \in ds : \A z \in ds : z <= q].d
           IN c = <<h[i].az, h[i].el, dd>>
=============================================================================
