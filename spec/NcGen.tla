-------------------------------- MODULE NcGen --------------------------------
(***************************************************************************)
(* Every way of writing the constraint argument nC for small bases.  TLC   *)
(* enumerates the initial states; each is printed and replayed into the    *)
(* real code.  An entry is an integer (remove the first n functions; 0 and *)
(* -1: none) or a list of functions, in any order, with repetitions.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dim,   \* number of entries (dimensions)
          Ms,    \* functions per dimension
          MaxLen \* longest list

VARIABLES m, nC, sent
vars == <<m, nC, sent>>

Lists(mm) == UNION {[1..n -> 0..(mm - 1)] : n \in 1..MaxLen}
Entries(mm) == {[k |-> "int", v |-> <<n>>] : n \in (-1)..(mm - 1)}
               \cup {[k |-> "list", v |-> s] : s \in {t \in Lists(mm) : Len(t) <= mm - 1}}

Distinct(e) == Cardinality({e.v[j] : j \in 1..Len(e.v)})
Init == /\ m \in Ms
        /\ nC \in [1..Dim -> Entries(m)]
        /\ sent = FALSE
Send == /\ ~sent /\ sent' = TRUE /\ UNCHANGED <<m, nC>>
        /\ PrintT("BEH " \o ToJson([m |-> m, nC |-> nC]))
Next == Send
Spec == Init /\ [][Next]_vars

(* what may be written always leaves at least one function in every dimension *)
Leaves == \A k \in 1..Dim : nC[k].k = "list" => Distinct(nC[k]) <= m - 1
=============================================================================
