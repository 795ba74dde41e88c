-------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Execution paths of one basis evaluation.  A program is a primitive      *)
(* evaluation H(x; d, full) wrapped by transformations (jit, vmap, pe,     *)
(* differentiation).  The model executes the wrapped program the way the   *)
(* library does: staging a program replaces the evaluation by a call whose *)
(* (identifier, d, full, rows, columns) operands are frozen at staging     *)
(* time, batching turns a scalar program into one over all points, partial *)
(* evaluation turns it into a constant; the call is executed by looking    *)
(* the object up in the registry.  Property: whatever the stack of         *)
(* wrappers, what is finally executed is the evaluation of the original    *)
(* object with the original order (plus the differentiations) and flag.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Objects, MaxWrap, MaxD

VARIABLES obj, d0, full, stack, prog, result
vars == <<obj, d0, full, stack, prog, result>>

(* registry: identifier -> object; identifiers are handed out in creation order and never reused *)
Id(o) == CHOOSE n \in 1..Cardinality(Objects) : o = n
Reg(n) == n

(* prog: what the wrapped program currently is *)
Open(o, d, f)      == [t |-> "open", o |-> o, d |-> d, f |-> f, rows |-> "scalar"]
Init == /\ obj \in Objects /\ d0 \in 0..MaxD /\ full \in BOOLEAN
        /\ stack = <<>> /\ prog = Open(obj, d0, full) /\ result = <<>>

Jit == /\ prog.t \in {"open", "call"}
       /\ prog' = [t |-> "call", o |-> (IF prog.t = "open" THEN Id(prog.o) ELSE prog.o), d |-> prog.d, f |-> prog.f, rows |-> prog.rows]
       /\ stack' = Append(stack, "jit")
Vmap == /\ prog.t \in {"open", "call"} /\ prog.rows = "scalar"
        /\ prog' = [prog EXCEPT !.rows = "all"] /\ stack' = Append(stack, "vmap")
Grad == /\ prog.t \in {"open", "call"} /\ prog.d < MaxD + 2
        /\ prog' = [prog EXCEPT !.d = @ + 1] /\ stack' = Append(stack, "grad")
Pe == /\ prog.t \in {"open", "call"}
      /\ prog' = [t |-> "const", o |-> IF prog.t = "open" THEN prog.o ELSE Reg(prog.o), d |-> prog.d, f |-> prog.f, rows |-> prog.rows]
      /\ stack' = Append(stack, "pe")
Wrap == /\ Len(stack) < MaxWrap /\ result = <<>> /\ (Jit \/ Vmap \/ Grad \/ Pe) /\ UNCHANGED <<obj, d0, full, result>>
Run == /\ result = <<>>
       /\ result' = <<IF prog.t = "call" THEN Reg(prog.o) ELSE prog.o, prog.d, prog.f>>
       /\ UNCHANGED <<obj, d0, full, stack, prog>>
Next == Wrap \/ Run
Spec == Init /\ [][Next]_vars

Grads == Cardinality({j \in 1..Len(stack) : stack[j] = "grad"})
PathIndependent == result # <<>> => result = <<obj, d0 + Grads, full>>
=============================================================================
