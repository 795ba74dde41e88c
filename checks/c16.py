"""C16: code printed for a constrained expression computes that expression."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import ccases
from harness.common import main

RULE = ("the code printed for a constrained expression, executed with np, egrad and a concrete free function, gives at every point "
        "the exact value of the specification's expression; sympy's own printer is unaffected")


def check(r):
    r.build()
    r.model("CeAlg", "CeAlg.cfg", workers=8, timeout=800)
    kinds = ["plain", "nested", "pi", "sym", "nested"] + list(ccases.EMBS)
    cases = []
    for k in range(1500 if r.thorough else 195):
        kind = kinds[k % len(kinds)]
        c = ccases.printed(r.rng, kind)
        cases.append(c)
        r.nontrivial.add((kind, str(c["vars"]), c["fname"], c["flip"], c["via"], c["vec"], str(c["ops"][1]["steps"]), len(c["ops"][0]["C"])))
    tr = r.drive("ce", cases)
    r.validate(tr, "TraceCe", chunk=60, group="b")
    return r.finish(RULE)


if __name__ == "__main__":
    main("C16", check)
