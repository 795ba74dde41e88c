"""C21: solving a differential equation the documented way gives its solution, and the conditions always hold."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import scases
from harness.common import main

RULE = ("random ordinary and partial differential equations and systems of 14 kinds whose only solution is a polynomial, solved with all backends, "
        "solvers, layouts and ways of writing the constrained expression; the solution found equals it, exactly after rounding.  Non-trivial: all")


def check(r):
    r.build()
    r.model("SolveAlg", "SolveAlgDeep.cfg" if r.thorough else "SolveAlg.cfg", workers=8)
    cases = []
    for k in range(560 if r.thorough else 56):
        c = scases.mk(r.rng, scases.KINDS[k % len(scases.KINDS)])
        c["id"] = "%d:%s" % (k, c["kind"])
        cases.append(c)
        r.nontrivial.add((c["kind"], c["solver"], c["backend"], c["style"], k))
    tr = r.drive("solve", cases)
    r.validate(tr, "TraceSolve", chunk=20)
    return r.finish(RULE)


if __name__ == "__main__":
    main("C21", check)
