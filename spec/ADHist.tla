------------------------------- MODULE ADHist -------------------------------
(***************************************************************************)
(* Automatic differentiation histories of a basis evaluation.              *)
(*                                                                         *)
(* The state is the formal sum the differentiated program stands for: a    *)
(* function from derivative multi-indices to integer coefficients.  One    *)
(* step differentiates the program once, in one of the ways JAX offers:    *)
(*   egrad, egradSimple, jacfwd   along variable k, unit tangent           *)
(*   jvp                          along variable k, tangent T(k)           *)
(*   scaled                       along s where variable k = T(k) s        *)
(*   jacrev                       backwards, unit cotangents               *)
(*   vjp                          backwards, cotangent T(k) per column     *)
(*   linearize                    the linear map at a point, applied to T  *)
(* By the chain rule each step maps every term D^a H to T D^(a+e_k) H.     *)
(* Every reachable history is printed and replayed into the real code.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dim, MaxLen

Modes == {"egrad", "egradSimple", "jvp", "scaled", "jacfwd", "jacrev", "vjp", "linearize"}
VARIABLES hist, sum
vars == <<hist, sum>>

T(k) == k + 1
Zero == [k \in 1..Dim |-> 0]
Bump(a, k) == [a EXCEPT ![k] = @ + 1]
Fac(mode, k) == IF mode \in {"jvp", "scaled", "vjp", "linearize"} THEN T(k) ELSE 1

Init == hist = <<>> /\ sum = [a \in {Zero} |-> 1]
Differentiate(mode, k) ==
  /\ Len(hist) < MaxLen
  /\ hist' = Append(hist, [mode |-> mode, var |-> k])
  /\ sum' = [a \in {Bump(b, k) : b \in DOMAIN sum} |->
               LET b == CHOOSE b \in DOMAIN sum : Bump(b, k) = a IN Fac(mode, k) * sum[b]]
  /\ PrintT("BEH " \o ToJson(hist'))
Next == \E mode \in Modes, k \in 1..Dim : Differentiate(mode, k)
Spec == Init /\ [][Next]_vars

RECURSIVE Prod(_, _)
Prod(h, n) == IF n = 0 THEN 1 ELSE Fac(h[n].mode, h[n].var) * Prod(h, n - 1)
(* the result does not depend on the order of the steps: it is the partial derivative counted by the history *)
Counted == /\ DOMAIN sum = {[k \in 1..Dim |-> Cardinality({j \in 1..Len(hist) : hist[j].var = k})]}
           /\ \A a \in DOMAIN sum : sum[a] = Prod(hist, Len(hist))
=============================================================================
