"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U, M, BC, BP, BB, TU, CE = ("src/tfc/utfc.py", "src/tfc/mtfc.py", "src/tfc/utils/BF.cc", "src/tfc/utils/BF_Py.py", "src/tfc/utils/BF_Py.cc",
                            "src/tfc/utils/TFCUtils.py", "src/tfc/utils/CeSolver.py")
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}, _t=technique, _n=note))


prop("C01", "Univariate basis matrices have the exact values of their definition",
     "For every univariate basis (Chebyshev, Legendre, Laguerre, both Hermites, Fourier, and the sigmoid/tanh/sin/swish/ReLU extreme learning "
     "machines), number of functions, domain [x0, xf] and derivative order, column j at x is the d-th derivative in x of the j-th function of "
     "that basis at the linearly mapped point, inside and outside the domain. The columns are the retained functions in increasing order, one row "
     "per point, and the compiled and the pure-Python backend both give these values to working precision.",
     ["inputs", "configurations"], "families, backends, interfaces (utfc accessors, raw basis classes), function counts, derivative orders 0-12, domains, weights, points",
     "The tests compare one basis size, one domain and a few orders with hand-written formulas or with the same code's other backend.",
     [BC, BP, U], [("BasisFunc::RecurseDeriv / nested derivative recursions", BC), ("Python basis classes", BP), ("utfc.H and dH..d8H", U)],
     "TLA+ specification of the recurrences in two prime fields; trace validation by TLC",
     "TLC checks the recurrences against the differential equations of the families; each recorded matrix entry is scaled to an integer and compared mod two primes with the specification's value. Trusts IEEE rounding to recover the integer; points are drawn where every entry is rational (or ln2/sqrt3 multiples).")
prop("C02", "The multivariate basis is every product of total degree at most deg",
     "For every dimension the multivariate basis of total degree deg consists of exactly the products of univariate functions whose degrees sum to "
     "at most deg, each once, in the fixed order with the first variable's degree running fastest; the ELM basis has the functions sigma(w.z+b). "
     "Every accessor (H, Hx, ..., Hw) and every tuple of derivative orders gives the mixed partial derivative in the problem variables x of these "
     "columns, for both backends and any number of points.",
     ["inputs", "configurations"], "families, backends, dimensions 1-4, degrees, all named accessors and arbitrary derivative tuples, domains per dimension, weights, points",
     "The tests evaluate one 2-D or 3-D configuration with fixed degree; the enumeration, order and per-dimension scaling must hold for each dimension and degree.",
     [BC, BP, M], [("nBasisFunc::NumBasisFunc / RecurseBasis", BC), ("nELM::nHint", BC), ("mtfc.H and the named accessors", M)],
     "TLA+ specification of the enumeration (odometer refinement) and products; trace validation by TLC",
     "Odometer.tla is checked against the declarative enumeration for all dimensions and degrees in bound; recorded matrices are compared entry by entry in two prime fields.")
prop("C03", "nC removes exactly the named functions, however it is written",
     "Columns are dropped exactly when nC names them: an integer n names the first n functions (n <= 0: none), a list, tuple or array names its "
     "members regardless of order, repetition or container type. In several dimensions a product is dropped exactly when each of its factors is named for its dimension; "
     "the remaining columns keep their order, the reported number of functions equals the number of columns, and full=True ignores nC.",
     ["inputs", "configurations"], "all nC arguments over small bases (every subset, order and repetition), random ones over larger bases, container types, dimensions 1-3",
     "The tests pass a handful of literal nC values.",
     [U, M, BC, BP], [("nC normalisation in utfc/mtfc", U), ("column removal in BF and nBasisFunc", BC), ("column removal in the Python backend", BP)],
     "TLC enumerates every constraint argument; each is replayed; trace validation against the TLA+ column rule",
     "Exhaustive over subsets/orders/repetitions of bases up to 4-5 functions and 3 dimensions, sampled above.")
prop("C04", "Automatic differentiation of a basis gives its own derivative for any history",
     "Differentiating any basis accessor by JAX (egrad in both forms, jvp with any tangents including zero, forward and reverse Jacobians, vjp, linearize, through argument scaling and compositions), "
     "any number of times, in any mixture of variables and modes and starting from any accessor, yields exactly the partial derivative of the order counted by the history. "
     "It does so eagerly and compiled, and is linear in the tangents and cotangents.",
     ["histories", "inputs"], "all differentiation histories up to the bound (mode and variable per step), random tangents, directions and inner functions",
     "The tests differentiate once or twice with unit tangents.",
     [U, M, TU], [("JVP rules of the basis primitives", U), ("JVP rules of the basis primitives", M), ("egrad, egradRobust", TU)],
     "TLC enumerates differentiation histories; replayed; trace validation against the exact derivative",
     "Histories up to length 3-4, three dimensions; directional derivatives compared with the multilinear form of the partials computed in two prime fields.")
prop("C05", "Every execution path gives the same basis matrix",
     "A basis matrix does not depend on how it is computed: eager with JAX or numpy points (contiguous or strided), jit (any nesting, recompilation for a new shape, closures, constants), "
     "vmap (over points, rows of points or one coordinate), lax control flow, ahead-of-time compilation, rematerialisation, partial evaluation, several executions at the same time (threads, or independent calls in one program), and as part of a larger differentiated expression all give the matrix of the definition, for points of any real type; "
     "the Python backend's analytic bases also keep complex inputs complex (complex-step derivatives work).",
     ["configurations", "programs"], "families x dimensions x 42 compiled-backend and 7 Python-backend paths x differentiated or not x full flag",
     "The tests use jit in a few places only.",
     [U, M, BC, BB], [("XLA custom calls and batching rules", U), ("XLA custom calls and batching rules", M), ("custom call targets", BC)],
     "TLA+ state machine of the path combinations; replay; trace validation against the path-free specification",
     "All paths of the list; shapes and inputs sampled. Concur.tla: all interleavings of concurrent executions leave each its own result when nothing is shared (and TLC shows the counterexample for shared work arrays); on the code the schedules are whatever the thread pool gives.")
prop("C06", "Points map linearly onto the basis domain and the grid fills the domain",
     "The problem domain [x0, xf] maps linearly onto the basis domain, with slope c per dimension, x0 defaulting to zero; the collocation points are the Chebyshev-Gauss-Lobatto nodes "
     "(polynomials) or equally spaced nodes (Fourier, ELM) in that domain, include both end points and number n. In several dimensions the points are the full tensor grid with N = prod n, "
     "every combination once, the last dimension varying fastest, and x and z correspond point by point, whatever containers the sizes and bounds come in.",
     ["inputs", "configurations"], "bases, backends, interfaces, dimensions 1-4, sizes, negative and reversed domains, argument containers",
     "The tests check a couple of fixed grids.",
     [U, M], [("collocation grid construction", U), ("tensor grid construction", M)],
     "TLA+ specification of the grid (model checked); trace validation of recorded grids",
     "Grid.tla proves the row formula equal to the declarative tensor grid in bound; recorded grids are logged by node position and compared with the node to 1e-12 of the domain.")
prop("C07", "Basis objects do not interfere; compiled programs keep their object",
     "Over any history of creating, re-weighting, compiling, evaluating and dropping basis objects, an evaluation of an object, eager or through a program compiled earlier, "
     "gives the matrix for that object's own configuration and its current ELM weights. Weights read back are the last ones set, whatever the memory layout of the array given, "
     "and no operation on one object changes another.",
     ["histories"], "histories of up to five objects of all kinds, weight updates, compiled programs and drops",
     "Tests create one or two objects and never interleave.",
     [BC, U, M], [("object registry and identifiers", BC), ("weight setters and getters", BC), ("per-object primitives", U)],
     "TLA+ state machine of the registry (model checked); TLC-simulated histories replayed; trace validation",
     "All interleavings in the bound on the model; simulated histories of length about 24 on the code.")
prop("C08", "A dictionary of arrays and its flat array stay consistent over any history",
     "After any sequence of assignments, updates, deletions, re-orderings and construction from pairs or mappings, flattening a TFCDict or TFCDictRobust gives the concatenation of "
     "its values in key order, and rebuilding from a flat array gives a dictionary of the same type, keys, order and shapes holding the array's consecutive pieces; the source is unchanged. "
     "Both directions work inside jit and under differentiation.",
     ["histories", "inputs"], "histories over up to three keys, array sizes 0, 1, 4 in all shapes, JAX and numpy values, key types",
     "The tests build one dictionary and never change it.",
     [TU], [("TFCDict toArray / toDict / slices", TU), ("TFCDictRobust toArray / toDict / slices", TU)],
     "TLA+ dictionary machine (model checked); simulated histories replayed; trace validation",
     "Model: all histories in bound keep flat/unflat inverse. Code: 250 (quick) simulated histories x 2 classes, exact integer values.")
prop("C09", "Dictionary arithmetic is element-wise and changes only what it should",
     "Adding or subtracting a dictionary with the same keys (in any order, also a plain dict) or a flat array to a TFCDict/TFCDictRobust gives the element-wise result under the left operand's keys, "
     "order, shapes and type. + and - leave both operands unchanged, += and -= change exactly the left one; "
     "both classes pass through JAX transformations (tree flatten/unflatten, tree_map, jit) with keys, order, shapes, values and type preserved.",
     ["histories", "inputs"], "histories mixing arithmetic, updates and tree operations over up to three dictionaries",
     "The tests add two freshly built dictionaries with keys in the same order.",
     [TU], [("TFCDict and TFCDictRobust arithmetic operators", TU), ("pytree registration", TU)],
     "TLA+ dictionary machine (model checked); simulated histories replayed; trace validation",
     "As C08, with arithmetic operations.")

exec(open(os.path.join(ROOT, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
checks = [{"property": p["id"], "quick_cmd": f"python3 checks/{p['id'].lower()}.py",
           "thorough_cmd": f"VERIF_TIER=thorough python3 checks/{p['id'].lower()}.py",
           "technique": p["_t"], "level": "model_checking", "level_note": p["_n"]} for p in P]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": []},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
