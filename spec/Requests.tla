------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Which requests make sense.  A request names an operation and the shape  *)
(* of its arguments; it is either served (an object, a matrix, a figure)   *)
(* or refused (the program is ended or an exception raised, and nothing is *)
(* returned).  Serve says which; every served evaluation has the shape     *)
(* Shape.  RequestGen enumerates requests, TraceRequests judges recorded   *)
(* ones.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Elms == {"ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish", "ELMReLU"}
Bases == {"CP", "LeP", "FS"} \cup Elms
Backends == {"C++", "Python"}
Methods == {"pinv", "lstsq"}
PrintTypes == {"tfc", "pretty", "latex", "str"}
Members(s) == {s[j] : j \in 1..Len(s)}

(* the removed functions named by an integer or a list, of a basis with functions 0..deg *)
Removed(c, deg) == IF c.k = "int" THEN 0..(c.v[1] - 1) ELSE Members(c.v)
NcFine(c, deg) == LET R == Removed(c, deg) IN R \subseteq 0..deg /\ Cardinality(R) <= deg

(* one entry per dimension of a polynomial or Fourier basis *)
EntryFine(c, deg) == IF c.k = "int" THEN c.v[1] <= deg ELSE Len(c.v) <= deg

ServeUtfc(e) == e.basis \in Bases /\ e.backend \in Backends /\ NcFine(e.nC[1], e.deg)
ServeMtfc(e) ==
  /\ e.basis \in Bases /\ e.backend \in Backends
  /\ e.nn = e.dim /\ e.nx0 \in {-1, e.dim} /\ e.nxf = e.dim
  /\ IF e.basis \in Elms THEN ~e.nested /\ NcFine(e.nC[1], e.deg)
     ELSE e.nested /\ Len(e.nC) = e.dim /\ \A k \in 1..e.dim : EntryFine(e.nC[k], e.deg)
(* evaluation at coordinate arrays of the given lengths (one basis dimension each); all one-dimensional, real unless stated *)
ServeEval(e) == /\ Len(e.lens) = e.dim
                /\ \A k \in 1..Len(e.lens) : e.lens[k] = e.lens[1]
                /\ e.cols = 1
                /\ (e.complex => e.backend = "Python")
ServeWeights(e) == IF e.what = "b" THEN e.size = <<e.m>> ELSE e.size = (IF e.api = "utfc" THEN <<e.m>> ELSE <<e.dim, e.m>>)
ServeHybrid(e) == \A k \in 1..Len(e.Ns) : e.Ns[k] = e.Ns[1]
ServeLabels(e) == \A k \in 1..Len(e.types) : e.types[k] \in {"str", "list", "tuple", "array", "absent"}

Serve(e) == CASE e.op = "utfc" -> ServeUtfc(e)
              [] e.op = "mtfc" -> ServeMtfc(e)
              [] e.op = "eval" -> ServeEval(e)
              [] e.op = "weights" -> ServeWeights(e)
              [] e.op = "graph" -> \A k \in 1..Len(e.edges) : Members(e.edges[k]) \subseteq 1..e.nodes
              [] e.op = "hybrid" -> ServeHybrid(e)
              [] e.op = "method" -> e.method \in Methods
              [] e.op = "print" -> e.ptype \in PrintTypes
              [] e.op = "labels" -> ServeLabels(e)
              [] e.op = "view" -> e.threeD
=============================================================================
