----------------------------- MODULE RequestGen -----------------------------
(* Enumerates requests, sensible or not, and checks facts about which are served. *)
EXTENDS Requests, TLC, Json
CONSTANTS MaxDeg, MaxDim, MaxLen
VARIABLES req, sent
vars == <<req, sent>>

Lists(hi) == UNION {[1..n -> (-1)..hi] : n \in 0..MaxLen}
Incr(s) == \A j \in 1..(Len(s) - 1) : s[j] <= s[j + 1]
Ncs(deg) == {[k |-> "int", v |-> <<n>>] : n \in (-1)..(deg + 2)} \cup {[k |-> "list", v |-> s] : s \in {t \in Lists(deg + 2) : Incr(t)}}
Entries(deg) == {[k |-> "int", v |-> <<n>>] : n \in (-1)..(deg + 1)} \cup {[k |-> "list", v |-> [j \in 1..n |-> j - 1]] : n \in 1..(deg + 1)}

Utfcs == UNION {{[op |-> "utfc", basis |-> "any", backend |-> b, deg |-> d, nC |-> <<c>>] : b \in Backends, c \in Ncs(d)} : d \in 1..MaxDeg}
         \cup {[op |-> "utfc", basis |-> f, backend |-> b, deg |-> 2, nC |-> <<[k |-> "int", v |-> <<1>>]>>] : f \in {"any", "CP2", "cp", ""}, b \in {"C++", "Python", "c++", ""}}
Elm1 == UNION {{[op |-> "mtfc", basis |-> "elm", backend |-> b, deg |-> d, dim |-> dim, nn |-> dim, nx0 |-> dim, nxf |-> dim, nested |-> FALSE, nC |-> <<c>>]
                : b \in Backends, c \in Ncs(d), dim \in 1..MaxDim} : d \in 1..2}
Poly == UNION {UNION {{[op |-> "mtfc", basis |-> "poly", backend |-> b, deg |-> d, dim |-> dim, nn |-> dim, nx0 |-> dim, nxf |-> dim, nested |-> TRUE, nC |-> c]
                : b \in Backends, c \in [1..dim -> Entries(d)]} : dim \in 1..2} : d \in 1..2}
Lens == UNION {{[op |-> "mtfc", basis |-> f, backend |-> "C++", deg |-> 2, dim |-> dim, nn |-> a, nx0 |-> x, nxf |-> y, nested |-> t, nC |-> c]
                : f \in {"poly", "elm", "NN"}, a \in 1..(MaxDim + 1), x \in {-1} \cup 1..(MaxDim + 1), y \in 1..(MaxDim + 1), t \in BOOLEAN,
                  c \in {[j \in 1..n |-> [k |-> "int", v |-> <<1>>]] : n \in 1..(MaxDim + 1)}} : dim \in 1..MaxDim}
LensUsed == {e \in Lens : (e.nested \/ Len(e.nC) = 1) /\ Cardinality({k \in 1..4 : <<e.nn, e.nx0, e.nxf, IF e.nested THEN Len(e.nC) ELSE e.dim>>[k] \notin {e.dim, -1}}) <= 1
                         /\ (e.nested => e.basis # "elm")}
Evals == UNION {{[op |-> "eval", api |-> IF dim = 1 THEN "utfc" ELSE "mtfc", dim |-> dim, backend |-> b, path |-> p, cols |-> k, complex |-> z, lens |-> l]
                 : b \in Backends, p \in {"eager", "jit"}, k \in 1..2, z \in BOOLEAN, l \in UNION {[1..n -> {3, 4}] : n \in 1..(dim + 1)}} : dim \in 1..MaxDim}
(* a univariate basis takes one array; the Python backend is not compiled; its two-dimensional arrays are not specified *)
EvalUsed == {e \in Evals : /\ (e.api = "utfc" => Len(e.lens) = 1) /\ (e.backend = "Python" => e.path = "eager" /\ e.cols = 1)
                           /\ (e.complex => e.cols = 1)}
Weights == UNION {{[op |-> "weights", api |-> "utfc", dim |-> 1, m |-> 3, backend |-> b, what |-> w, size |-> <<n>>] : b \in Backends, w \in {"w", "b"}, n \in {1, 2, 3, 4, 6}}}
           \cup {[op |-> "weights", api |-> "mtfc", dim |-> 2, m |-> 3, backend |-> b, what |-> "b", size |-> <<n>>] : b \in Backends, n \in {1, 2, 3, 4, 6}}
           \cup {[op |-> "weights", api |-> "mtfc", dim |-> 2, m |-> 3, backend |-> b, what |-> "w", size |-> <<a, n>>] : b \in Backends, a \in {1, 2, 3}, n \in {2, 3, 4}}
(* the Python backend only looks at the number of weights *)
WeightsUsed == {e \in Weights : e.backend = "C++" \/ e.api = "utfc" \/ e.what = "b" \/ ServeWeights(e) \/ e.size[1] * e.size[2] # e.dim * e.m}
Graphs == UNION {{[op |-> "graph", nodes |-> n, edges |-> s] : s \in {t \in UNION {[1..k -> (1..(n + 1)) \X (1..(n + 1))] : k \in 1..2} : \A j \in 1..Len(t) : t[j][1] # t[j][2]}} : n \in 2..2}
Others == {[op |-> "hybrid", Ns |-> s] : s \in UNION {[1..n -> {3, 4}] : n \in 1..3}}
          \cup {[op |-> "method", fn |-> f, method |-> m] : f \in {"LS", "LsClass", "NLLS", "NllsClass"}, m \in {"pinv", "lstsq", "qr", "", "PINV", "lst"}}
          \cup {[op |-> "print", ptype |-> p] : p \in PrintTypes \cup {"", "TFC", "ascii"}}
          \cup {[op |-> "view", threeD |-> t, rows |-> n] : t \in BOOLEAN, n \in 1..2}
LabelTypes == {"str", "list", "array", "tuple", "int", "dict", "absent"}
Labels == {[op |-> "labels", lib |-> l, types |-> t] : l \in {"mpl", "plotly"},
            t \in {s \in [1..4 -> LabelTypes] : s[1] # "absent" /\ s[2] # "absent" /\ Cardinality({k \in 1..4 : s[k] \notin {"str", "absent"}}) <= 1}}
Init == req \in Utfcs \cup Elm1 \cup Poly \cup LensUsed \cup EvalUsed \cup WeightsUsed \cup Graphs \cup Others \cup Labels /\ sent = FALSE
Send == ~sent /\ sent' = TRUE /\ UNCHANGED req /\ PrintT("BEH " \o ToJson(req))
Next == Send
Spec == Init /\ [][Next]_vars

Real(e) == IF e.op \notin {"utfc", "mtfc"} THEN e
           ELSE [e EXCEPT !.basis = IF @ = "any" THEN "CP" ELSE IF @ = "poly" THEN "CP" ELSE IF @ = "elm" THEN "ELMTanh" ELSE @]
(* a served basis has functions left to work with; a served evaluation reads only what it was given *)
SomethingLeft == req.op = "utfc" /\ Serve(Real(req)) => (0..req.deg) \ Removed(req.nC[1], req.deg) # {}
ReadsGiven == req.op = "eval" /\ Serve(req) => Len(req.lens) = req.dim /\ \A k \in 1..Len(req.lens) : req.lens[k] >= req.lens[1]
=============================================================================
