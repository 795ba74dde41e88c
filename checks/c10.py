"""C10: constrained expressions are right, whatever constraints, support functions, data and free function."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import ccases
from harness.common import main

RULE = ("every read of S, alpha, phi, rho and ce equals, as exact residues modulo two primes, the value the specification "
        "computes from the problem, the free function being a random bivariate polynomial")


def check(r):
    r.build()
    r.model("CeAlg", "CeAlgDeep.cfg" if r.thorough else "CeAlg.cfg", workers=8, timeout=800)
    kinds = ["plain", "points", "pi", "cos", "exp", "sym", "pip", "nested", "nested"]
    cases = []
    for k in range(1200 if r.thorough else 260):
        kind = kinds[k % len(kinds)]
        cases.append(ccases.values(r.rng, kind))
        r.nontrivial.add((kind, k))
    tr = r.drive("ce", cases)
    r.validate(tr, "TraceCe", chunk=60, group="b")
    return r.finish(RULE)


if __name__ == "__main__":
    main("C10", check)
