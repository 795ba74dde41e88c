------------------------------ MODULE TracePlot ------------------------------
(***************************************************************************)
(* Trace validation of MakePlot (matplotlib: lib = "mpl") and of           *)
(* PlotlyMakePlot (lib = "plotly").                                        *)
(*   new     x, y, z, twin, titles: rows of labels ("~" is None); panels:  *)
(*           what the figure shows, in the order of its list of axes       *)
(*   view    the camera of every panel after the call, over the distance:  *)
(*           each coordinate <<A, B>> of (A + B sqrt 3)/4                  *)
(*   draw    panel of the trace added;  size   the figure's size           *)
(*   norm    colour limits of every trace after NormalizeColorScale        *)
(*   save    file written and its kind;  pickle   panels of the copy read  *)
(*           back;  anim   the frames written                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, beh, st, dead
vars == <<l, bad, beh, st, dead>>

No == "~"
(* ------------------------------------------------------------- panels *)
Grid(e) == [p \in 1..(Len(e.x) * Len(e.x[1])) |-> <<((p - 1) \div Len(e.x[1])) + 1, ((p - 1) % Len(e.x[1])) + 1>>]
Present(e) == SelectSeq(Grid(e), LAMBDA q : e.x[q[1]][q[2]] # No)
At(m, q) == IF m = <<>> THEN No ELSE m[q[1]][q[2]]
Want(e) == [i \in 1..Len(Present(e)) |->
             LET q == Present(e)[i]
             IN [row |-> q[1], col |-> q[2], x |-> e.x[q[1]][q[2]], y |-> e.y[q[1]][q[2]], z |-> At(e.z, q),
                 twin |-> At(e.twin, q), title |-> At(e.titles, q), nr |-> Len(e.x), nc |-> Len(e.x[1])]]

(* -------------------------------------------------------------- views *)
(* 2 sin(30 k degrees) = a + b sqrt 3 *)
Sin2 == << <<0,0>>, <<1,0>>, <<0,1>>, <<2,0>>, <<0,1>>, <<1,0>>, <<0,0>>, <<-1,0>>, <<0,-1>>, <<-2,0>>, <<0,-1>>, <<-1,0>> >>
SinD(a) == Sin2[((a \div 30) % 12) + 1]
CosD(a) == SinD(a + 90)
Times(p, q) == << p[1] * q[1] + 3 * p[2] * q[2], p[1] * q[2] + p[2] * q[1] >>
Neg(p) == << -p[1], -p[2] >>
Dbl(p) == << 2 * p[1], 2 * p[2] >>
Eye(az, el) == << Neg(Times(SinD(az), CosD(el))), Neg(Times(CosD(az), CosD(el))), Dbl(SinD(el)) >>

(* -------------------------------------------------------------- files *)
Suffixes == IF TRUE THEN {"png", "pdf", "ps", "eps", "svg"} ELSE {}
SavedAs(e) == IF e.type # "" THEN <<e.stem \o "." \o e.type, e.type>>
              ELSE IF e.lib = "plotly" THEN <<e.stem \o "." \o e.suffix, "html">>
              ELSE IF e.suffix \in Suffixes THEN <<e.stem \o "." \o e.suffix, e.suffix>>
              ELSE <<e.stem \o (IF e.suffix = "" THEN "" ELSE "." \o e.suffix), "pdf">>

(* -------------------------------------------------------------- sizes *)
(* scr: the screen, pixels across and down, millimetres across and down;   *)
(* a size is right to a pixel                                              *)
Abs(n) == IF n < 0 THEN -n ELSE n
Near(got, num, den) == Abs(got * den - num) <= den
SizeOK(e, i) ==
  LET w == IF i = 1 THEN e.w ELSE e.g
  IN CASE e.u = "full" -> Near(e.got[i], e.scr[i], 1)
       [] e.u = "px" -> e.got[i] = w
       [] e.u = "mm" -> Near(e.got[i], w * e.scr[i], e.scr[i + 2])
       [] e.u = "in" /\ e.lib = "mpl" -> e.got[i] = w * e.dpi
       [] e.u = "in" -> Near(e.got[i], w * e.scr[i] * 254, 10 * e.scr[i + 2])

(* ------------------------------------------------------ colour limits *)
Max(S) == CHOOSE a \in S : \A b \in S : b <= a
Min(S) == CHOOSE a \in S : \A b \in S : a <= b
Sel(e) == {i \in 1..Len(e.types) : \E k \in 1..Len(e.want) : e.want[k] = e.types[i]}
Data(e) == UNION {{e.data[i][k] : k \in 1..Len(e.data[i])} : i \in Sel(e)}
Limits(e, before) ==
  LET lo == IF e.given THEN e.cmin ELSE <<Min(Data(e))>>
      hi == IF e.given THEN e.cmax ELSE <<Max(Data(e))>>
  IN [i \in 1..Len(e.types) |-> IF i \in Sel(e) THEN << IF lo = <<>> THEN before[i][1] ELSE lo, IF hi = <<>> THEN before[i][2] ELSE hi >>
                                ELSE before[i]]

Clauses(s, e) ==
  IF e.raised # "" THEN {<<"raised", e.raised>>}
  ELSE CASE e.op = "new" -> {<<"panel", i>> : i \in {i \in 1..Len(Want(e)) : i > Len(e.panels) \/ (i <= Len(e.panels) /\ e.panels[i] # Want(e)[i])}}
                            \cup (IF Len(e.panels) = Len(Want(e)) THEN {} ELSE {<<"number of panels", Len(e.panels)>>})
         [] e.op = "view" -> LET p == (e.j - 1) * s.nc + e.k
                                 d == IF e.d = 0 THEN s.dist ELSE e.d
                                 cam == [s.cam EXCEPT ![p] = <<Eye(e.az, e.el), d>>]
                             IN {<<"camera", q>> : q \in {q \in 1..Len(cam) : e.cams[q] # cam[q]}}
         [] e.op = "draw" -> IF e.panel = <<e.j, e.k>> /\ e.kind THEN {} ELSE {<<"trace on panel", e.panel>>}
         [] e.op = "size" -> IF \A i \in 1..2 : SizeOK(e, i) THEN {} ELSE {<<"size", e.got>>}
         [] e.op = "norm" -> IF e.lims = Limits(e, e.before) THEN {} ELSE {<<"colour limits", Limits(e, e.before)>>}
         [] e.op = "save" -> IF e.files = <<SavedAs(e)[1]>> /\ e.kind = SavedAs(e)[2]
                                /\ (e.back = "any" \/ (e.back = "clear") = e.tr) THEN {} ELSE {<<"file", SavedAs(e)>>}
         [] e.op = "pickle" -> IF e.panels = s.panels /\ e.file THEN {} ELSE {<<"pickled figure">>}
         [] e.op = "anim" -> IF e.frames = e.want /\ e.kinds /\ e.same THEN {} ELSE {<<"frames", e.want>>}

After(s, e) ==
  CASE e.op = "new" -> [panels |-> e.panels, nc |-> IF e.x = <<>> THEN 1 ELSE Len(e.x[1]), dist |-> -1,
                        cam |-> IF e.x = <<>> THEN <<>> ELSE [p \in 1..(Len(e.x) * Len(e.x[1])) |-> <<>>]]
    [] e.op = "view" -> [s EXCEPT !.dist = IF e.d = 0 THEN @ ELSE e.d,
                                  !.cam[(e.j - 1) * s.nc + e.k] = <<Eye(e.az, e.el), IF e.d = 0 THEN s.dist ELSE e.d>>]
    [] OTHER -> s

Init == l = 1 /\ bad = <<>> /\ beh = -1 /\ st = <<>> /\ dead = FALSE
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]
               skip == e.b = beh /\ dead
               v == IF skip THEN {} ELSE Clauses(st, e)
           IN /\ beh' = e.b /\ dead' = (skip \/ v # {})
              /\ st' = IF skip \/ v # {} THEN st ELSE After(st, e)
              /\ bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED <<bad, beh, st, dead>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
