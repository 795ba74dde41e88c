----------------------------- MODULE TraceLatex -----------------------------
(* Trace validation of Latex.table.SimpleTable: the arguments and the table read back from the text *)
EXTENDS Latex, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

Kind(e, i) == IF e.items[i].t = "hline" THEN "hline" ELSE Shape(e)[i]
RowAt(e, i) == (i - (IF e.hasCol THEN 3 ELSE 1) + 1) \div 2        \* the array row of item i
RowBad(e, i) ==
  LET it == e.items[i]
      r == RowAt(e, i)
      off == IF e.hasRow THEN 1 ELSE 0
  IN IF Len(it.cells) # NCols(e) THEN {<<"cells in row", r>>}
     ELSE (IF e.hasRow /\ it.cells[1].text # e.row[r] THEN {<<"row header", r>>} ELSE {})
          \cup {<<"cell", r, j>> : j \in {j \in 1..Len(e.arr[1]) : ~NumOk(e.form, e.arr[r][j], it.cells[j + off])}}
HeadBad(e, i) == IF [j \in 1..Len(e.items[i].cells) |-> e.items[i].cells[j].text] = e.col THEN {} ELSE {<<"column header">>}

Clauses(e) ==
  IF e.raised # "" THEN {<<"raised", e.raised>>}
  ELSE IF ~e.frame THEN {<<"not a centred tabular">>}
  ELSE (IF e.cols = NCols(e) THEN {} ELSE {<<"number of columns", e.cols>>})
       \cup (IF Len(e.items) # Len(Shape(e)) \/ \E i \in 1..Len(e.items) : (e.items[i].t = "hline") # (Shape(e)[i] = "hline")
             THEN {<<"rows and rules">>}
             ELSE UNION {IF Shape(e)[i] = "row" THEN RowBad(e, i) ELSE IF Shape(e)[i] = "head" THEN HeadBad(e, i) ELSE {} : i \in 1..Len(e.items)})

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET v == Clauses(Trace[l]) IN bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
