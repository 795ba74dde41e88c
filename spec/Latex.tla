-------------------------------- MODULE Latex --------------------------------
(***************************************************************************)
(* The table SimpleTable has to write, as LaTeX reads it.                  *)
(*                                                                         *)
(* Items of the body: "hline", or a row (the cells between & up to \\).    *)
(* A number cell is the decimal the format asks for: correctly rounded,    *)
(* with the asked number of decimals.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE P10(_)
P10(k) == IF k = 0 THEN 1 ELSE 10 * P10(k - 1)
Abs(a) == IF a < 0 THEN -a ELSE a

(* v = n/d * 10^q (q = 0 unless d = 1); the cell shows D * 10^(x - k), k decimals (x: the exponent shown, 0 for the fixed format) *)
Rounded(n, d, D, x, k) ==
  IF x <= k THEN 2 * Abs(n * P10(k - x) - D * d) <= d
  ELSE 2 * Abs(n - D * d * P10(x - k)) <= d * P10(x - k)
NumOk(form, v, o) ==
  /\ o.ok                                              \* the cell is a number with the format's affixes
  /\ o.k = form.k
  /\ (v[1] < 0 /\ o.D # 0 => o.D < 0) /\ (v[1] >= 0 => o.D >= 0)
  /\ o.plus = (form.plus /\ v[1] >= 0)
  /\ IF form.t = "f" THEN o.e = "" /\ IF v[3] = 0 THEN Rounded(v[1], v[2], o.D, 0, form.k) ELSE v[3] <= -10 /\ o.D = 0
     ELSE o.e = form.t /\ (IF v[1] = 0 THEN o.D = 0 /\ o.x = 0 ELSE Abs(o.D) >= P10(form.k) /\ Abs(o.D) < 10 * P10(form.k))
          /\ (v[1] # 0 => o.x - v[3] \in -3..6 /\ Rounded(v[1], v[2], o.D, o.x - v[3], form.k))

(* columns of the tabular *)
NCols(e) == Len(e.arr[1]) + (IF e.hasRow THEN 1 ELSE 0)
(* where the rules are: on top, under the column header, under every row *)
Shape(e) == <<"hline">> \o (IF e.hasCol THEN <<"head", "hline">> ELSE <<>>)
            \o [i \in 1..(2 * Len(e.arr)) |-> IF i % 2 = 1 THEN "row" ELSE "hline"]
=============================================================================
