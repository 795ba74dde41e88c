CE = "src/tfc/utils/CeSolver.py"
prop("C10", "Constrained expressions are exact for every well-posed problem",
     "For constraints that are linear functionals in one variable (values, derivatives, definite integrals and linear combinations of them, points rational, symbolic or multiples of pi), data that are "
     "constants or functions of the other variable, and support functions with a regular support matrix, CeSolver's support matrix, its inverse alpha, switching functions, projection functionals and "
     "constrained expression are exact: the expression is g + sum phi_k rho_k, satisfies every constraint for every free function g, and returns a g that satisfies them already unchanged. "
     "The expression of one variable used as the free function of another satisfies both sets when they are compatible. checkCe answers True only for an expression that satisfies the constraints, and True "
     "for every one that does when the constraints are point values and derivatives.",
     ["inputs"], "problems with 1-4 constraints of all kinds, support polynomials, data, free functions, nested pairs",
     "Three fixed problems are tested, through checkCe itself.",
     [CE], [("support matrix, alpha, phi, rho, ce", CE), ("checkCe", CE)],
     "TLA+ constrained-expression algebra over two prime fields (model checked); trace validation of recorded items",
     "CeAlg checks duality, satisfaction, idempotence and nesting on the specification for all problems in bound; recorded expressions are closed with a random polynomial g and compared coefficient by coefficient.")
prop("C11", "A CeSolver always answers for its current inputs",
     "Over any history of assigning constraints, data, support functions, the free function, switching functions or the constrained expression of a CeSolver, interleaved with reads, every read of S, alpha, "
     "phi, rho and ce is the value for the current inputs; switching functions assigned by the user count until constraints or support functions are assigned, an expression assigned by the user "
     "until any input is; checkCe judges the expression in force against the constraints in force; inputs read back are those assigned, and solvers do not influence each other.",
     ["histories"], "histories of 14 assignments and reads over two solvers, also feeding one's expression to the other",
     "The tests assign g and ce once each.",
     [CE], [("stale flags of the setters", CE), ("lazy getters", CE)],
     "TLA+ cache machine (model checked); TLC-simulated histories replayed; trace validation against the CE algebra",
     "CeMachine: all histories in bound return the value for the current versions. Code: simulated histories, exact residues.")
prop("C12", "LS, LsClass and ScaledQrLs return the least-squares solution",
     "For any residual that is affine in the unknowns, LS and LsClass.run return the unknowns minimising its 2-norm (of least norm from a zero start when it is not unique), whether the unknowns are an array, "
     "a TFCDict or a TFCDictRobust with entries of any shape in any key order, real or complex (holomorphic), with either method, with a user Jacobian (used as given), and with any subset of the arguments "
     "made constant in any order. The result has the type, keys, order and shapes of the unknowns given; constants keep the value they had at construction and later runs use their own other arguments; "
     "the timer only adds a non-negative time; the caller's unknowns, arguments and lists are not changed. ScaledQrLs(A, B) returns the least-squares solution of A X = B for any A of full column rank with no zero column and B a vector or matrix, with the condition number of the column-scaled A.",
     ["inputs", "configurations", "histories"], "problem sizes, layouts, ranks, real/complex, methods, user Jacobians, argument roles and constants, repeated runs",
     "Tests solve a few differential equations with one configuration.",
     [TU], [("LS", TU), ("LsClass", TU), ("pe", TU)],
     "TLA+ model of frozen arguments (model checked); trace validation of normal equations in two prime fields",
     "The specification judges a returned solution by the normal equations and orthogonality to the null space, exactly; solutions are recovered as rationals with known denominator (tolerance 1e-4 of 1/den).")
prop("C13", "NLLS and NllsClass iterate, stop and report as documented",
     "NLLS and NllsClass.run apply Gauss-Newton steps from the initial guess and stop exactly when max|res| or the last step's max|dxi| is at most tol (tol below 1) or maxIter steps were made (an initial guess that "
     "already meets the tolerance is returned with it = 0); the returned iteration number and unknowns are those of the last step. A user Jacobian, condition or body replaces the built-in one; printOut prints one line "
     "per step with the step number and max|res| after it; constants, layouts, complex unknowns, timers and repeated runs behave as in LS, and no run depends on an earlier one.",
     ["inputs", "configurations", "histories"], "linear and quadratic residuals with exactly known dyadic iterates (convergent, stalling, divergent), tolerances, budgets, all options",
     "Tests only look at converged solutions.",
     [TU], [("NLLS loop", TU), ("NllsClass loop", TU)],
     "TLA+ loop machine with liveness (model checked); trace validation of iterates, counts and printed lines",
     "NllsLoop: stopping rule, result and print-out for all parameters in bound, termination under weak fairness. Code: residual families whose error contracts by a known factor.")
prop("C14", "Partially evaluated functions keep constants and take the rest in order",
     "For any function of arrays or trees and any set of constant arguments listed in any order, pe and pejit return a function of the remaining arguments, in their original order, that gives the original "
     "function's value and output structure with the constants as they were when it was made, for every later value of the others (also when an output depends on constants only, or is an argument itself), without running the "
     "original function again; the caller's list is not changed and several such functions do not influence each other.",
     ["inputs", "histories"], "up to 4 arguments of 11 forms, all constant subsets and orders, output structures, histories of 12 changes and calls",
     "Tests use pejit with one constant argument in last position.",
     [TU], [("pe", TU), ("pejit", TU)],
     "TLA+ machine of frozen arguments (model checked); TLC-simulated histories replayed; trace validation",
     "All constant lists in bound on the model; 500 simulated histories (quick) on the code, exact integers.")
CG = "src/tfc/utils/TFCUtils.py"
HT = "src/tfc/utils/Html.py"
prop("C15", "Component constraint graphs are exactly the acyclic ones",
     "For any set of vector components (nodes) and component constraints (edges with two distinct nodes, parallel ones included), a ComponentConstraintGraph's targets are all 2^e choices of a target per "
     "constraint and goodTargets selects exactly those whose directed graph has no cycle; an edge naming an unknown node is rejected. SaveGraphs writes, in the directory named (existing or not), exactly one graph per "
     "good choice, or per choice when all graphs are asked for, each with the right nodes, names and directions, reached from the main page, and PDFs when asked for.",
     ["inputs", "configurations"], "all multigraphs in bound up to 4 nodes / 4 edges, random larger ones up to 7 nodes, save options",
     "The tests compare the written files of one graph.",
     [CG, HT], [("targets and goodTargets", CG), ("SaveGraphs", CG), ("Html, HTMLElement, Image", HT)],
     "TLA+ spec of orientations and acyclicity (model checked); enumerated graphs replayed; trace validation of targets and files",
     "GraphAlg checks that cycle removal by sinks equals transitive closure on all graphs in bound. Graphs are read back from the SVG that graphviz renders.")
prop("C16", "Printed constrained expressions compute the expression",
     "For any constrained expression CeSolver produces for constraints on values and derivatives (one or two variables, derivatives of any order, symbolic or pi points, nested) with polynomial, exponential, logarithmic, trigonometric "
     "or root data, the code printed by TfcPrinter, or for ce with print_type 'tfc', is valid Python that, run with np, egrad and the free function in scope, returns the expression's value at every point or array of points; "
     "so is the code printed for derivatives of the expression and for its value at a fixed point, evaluated or left as sympy Derivative and Subs. Making or using a TfcPrinter does not change what sympy prints.",
     ["inputs", "configurations"], "expressions of all kinds in C10, names of variables and free function, evaluation points",
     "One printed string is tested.",
     [CE], [("TfcPrinter", CE), ("print_type", CE)],
     "TLA+ constrained-expression algebra (model checked); trace validation of values computed by executing the printed code",
     "Values at rational points are compared with the specification's exact value (tolerance 1e-6 relative); constants are wrapped as arrays so that egrad can be applied.")
PL = "src/tfc/utils/PlotlyMakePlot.py"
MP = "src/tfc/utils/MakePlot.py"
LX = "src/tfc/utils/Latex.py"
UT = "src/tfc/utfc.py"
prop("C17", "A HybridUtfc evaluates its bases side by side",
     "For any non-empty list of univariate TFC objects with the same number of points and domain, HybridUtfc's H, dH, d2H, d3H, d4H and d8H (reduced or full) return, at every point, the matrices of its bases side by side, "
     "in the order given, each with its own removed constraints and mapping; automatic derivatives and jit of these agree; objects made for different numbers of points are rejected.",
     ["inputs", "configurations"], "lists of 1-3 bases of all families, both backends, derivative orders, full flag, up to 3 automatic derivatives, jit",
     "No test uses HybridUtfc.",
     [UT], [("HybridUtfc", UT)],
     "TLA+ basis algebra in prime fields (model checked); TLC-enumerated evaluations replayed; trace validation",
     "Hybrid.tla enumerates the evaluations; TraceHybrid judges every column of every block with the basis algebra of C01-C03.")
prop("C18", "egrad and egradSimple are exact elementwise derivatives",
     "For any differentiable function of several floating or complex arrays or trees of arrays, egrad(f, j) returns at every argument the derivative of f as all elements of argument j grow alike (for an elementwise f, the elementwise "
     "derivative), with the structure of f's value, for any callable, any j and any nesting and order of differentiations; egradSimple does the same for real arrays; step and its derivatives behave as the Heaviside "
     "function with zero derivative everywhere.",
     ["inputs", "histories"], "functions (polynomial, mixing, step factors), argument structures, callables, nesting histories, composition with jit and vmap",
     "Tests differentiate one or two fixed functions.",
     [TU], [("egrad", TU), ("egradSimple", TU), ("step", TU)],
     "TLA+ polynomial calculus (model checked); TLC-enumerated differentiation histories replayed; trace validation of exact values",
     "Egrad.tla checks linearity, product rule and commutation on all polynomials in bound; recorded values are exact integers.")
prop("C19", "SimpleTable writes exactly the table asked for",
     "For any 2-D array of finite floats (up to some 60 columns), column headers or none, row headers or none, and any number format, Latex.table.SimpleTable writes a LaTeX table that reads back as exactly the headers and, in each cell, the "
     "correctly rounded value of that array element in that format, with as many columns declared as there are.",
     ["inputs", "configurations"], "sizes, headers, formats with text before and after the number, values of all magnitudes and signs",
     "The test compares one 3x3 table.",
     [LX], [("SimpleTable", LX)],
     "TLA+ specification of decimal rounding and table reading (model checked); enumerated tables replayed; trace validation",
     "LatexGen enumerates sizes and headers; TraceLatex judges every cell by exact rational rounding.")
prop("C20", "Figures show each label, title, trace and view on its own panel",
     "For any grid of panels (2-D, 3-D, twin axes, empty places, missing titles), MakePlot and PlotlyMakePlot put each label and title on the panel it was given for, and views, traces, sizes and colour scales set later act on the "
     "panel or figure named and on no other; saving writes the kind of file asked for under the name asked for.",
     ["inputs", "configurations", "histories"], "grids up to 3x3, label forms, histories of views, traces, sizes and saves",
     "The tests save one figure each.",
     [MP, PL], [("MakePlot", MP), ("PlotlyMakePlot", PL), ("NormalizeColorScale", PL)],
     "TLA+ panel machine (model checked); TLC-simulated histories replayed; trace validation of the figure objects",
     "Panels.tla gives the panel numbering and the figure after every history in bound; figures are read back through matplotlib and plotly objects.")
prop("C21", "Solving a differential equation the TFC way gives its solution",
     "For any ordinary or partial differential equation or system (linear, or mildly nonlinear) whose conditions determine a solution within the span of the basis, building the constrained expression from CeSolver's printed code or "
     "switching functions with a utfc or mtfc free function, the residual with egrad, and solving with LS, LsClass, NLLS or NllsClass gives that solution everywhere in the domain, its derivatives included; the conditions "
     "hold exactly whatever values the unknown coefficients have.",
     ["inputs", "configurations"], "14 kinds of problems (IVP, BVP, systems, heat, wave, Poisson, advection, Burgers), bases, backends, domains, solvers, layouts, ways of writing the expression",
     "Tests solve a handful of fixed equations with fixed settings.",
     [UT, "src/tfc/mtfc.py", TU, CE], [("utfc and mtfc", UT), ("solvers and egrad", TU), ("CeSolver and TfcPrinter", CE)],
     "TLA+ uniqueness model over small fields (model checked); trace validation of solved problems against exact polynomial solutions",
     "Problems are manufactured: the specification checks that the recorded polynomial solves the recorded problem and that the values found are its values.")
BCC = "src/tfc/utils/BF.cc"
prop("C22", "Requests that make no sense are refused, and only those",
     "Requests whose parts do not fit together are refused (an exception or the end of the program, never a returned object or matrix): a basis or backend that does not exist; nC naming functions the "
     "basis does not have or all of them; numbers of sizes, bounds or nC entries other than the dimension; evaluation with the wrong number of coordinate arrays, arrays of different lengths, two-dimensional "
     "points or (C++ backend) complex points, eager or compiled; ELM weights of the wrong size; HybridUtfc bases for different numbers of points; a graph edge naming an unknown node; an unknown least-squares method or "
     "print type; labels that are not text; a view of a figure that is not 3-D. Every other request of these kinds is served.",
     ["inputs", "configurations"], "enumerated requests, sensible or not, of ten kinds",
     "The tests never make a senseless request.",
     [U, M, TU, BCC], [("argument checks of utfc", U), ("argument checks of mtfc", M), ("setW, setB", BCC), ("TFCPrint.Error", TU)],
     "TLA+ predicate of sensible requests (model checked); all enumerated requests sent to the code; trace validation of served or refused",
     "RequestGen enumerates about 1900 requests in bound (more in the thorough tier); every one is sent to the real code in a worker process.")
