------------------------------ MODULE LatexGen ------------------------------
(***************************************************************************)
(* Writing a table line by line, and reading it back: the reader (what     *)
(* LaTeX does: rows end at \\, cells at &) recovers exactly the cells that *)
(* were written, for every size and header choice in bound.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxR, MaxC
VARIABLES cfg, toks, r
vars == <<cfg, toks, r>>
Cell(i, j) == <<"cell", i, j>>
RECURSIVE RowToks(_, _, _)
RowToks(i, j, n) == IF j > n THEN <<>> ELSE (IF j > 1 THEN << <<"amp">> >> ELSE <<>>) \o <<Cell(i, j)>> \o RowToks(i, j + 1, n)
NC == cfg.nc + (IF cfg.row THEN 1 ELSE 0)
Init == /\ cfg \in [nr : 1..MaxR, nc : 1..MaxC, col : BOOLEAN, row : BOOLEAN]
        /\ toks = << <<"hline">> >> /\ r = 0
        /\ PrintT("BEH " \o ToJson(cfg))
HeadRow == /\ r = 0 /\ cfg.col /\ toks' = toks \o RowToks(0, 1, NC) \o << <<"nl">>, <<"hline">> >> /\ r' = 1
Skip == r = 0 /\ ~cfg.col /\ r' = 1 /\ UNCHANGED toks
Row == r >= 1 /\ r <= cfg.nr /\ toks' = toks \o RowToks(r, 1, NC) \o << <<"nl">>, <<"hline">> >> /\ r' = r + 1
Next == (HeadRow \/ Skip \/ Row) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars

(* the reader: a list of rows of cells *)
RECURSIVE Read(_, _, _, _)
Read(k, cur, rows, ts) ==
  IF k > Len(ts) THEN <<rows, cur>>
  ELSE CASE ts[k][1] = "hline" -> Read(k + 1, cur, rows, ts)
         [] ts[k][1] = "amp" -> Read(k + 1, cur, rows, ts)
         [] ts[k][1] = "nl" -> Read(k + 1, <<>>, Append(rows, cur), ts)
         [] OTHER -> Read(k + 1, Append(cur, ts[k]), rows, ts)
Faithful == LET got == Read(1, <<>>, <<>>, toks)
                first == IF cfg.col THEN 0 ELSE 1
                n == IF r = 0 THEN 0 ELSE r - first
            IN got[2] = <<>> /\ got[1] = [i \in 1..n |-> [j \in 1..NC |-> Cell(i - 1 + first, j)]]
Rules == (r = cfg.nr + 1) => Len(SelectSeq(toks, LAMBDA t : t[1] = "hline")) = 1 + cfg.nr + (IF cfg.col THEN 1 ELSE 0)
=============================================================================
