"""C13: NLLS and NllsClass iterate and stop as documented."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import lcases
from harness.common import main

RULE = ("for problems with exactly known dyadic iterates the returned solution, iteration count and printed lines are those of the "
        "specification's loop")


def check(r):
    r.build()
    r.model("NllsLoop", "NllsLoopDeep.cfg" if r.thorough else "NllsLoop.cfg")
    r.model("Frozen", "FrozenDeep.cfg" if r.thorough else "Frozen.cfg")
    cases = [lcases.nonlinear(r.rng, ("NLLS", "NllsClass")[k % 2]) for k in range(2500 if r.thorough else 260)]
    for c in cases:
        r.nontrivial.add((c["fn"], c["struct"], c["q"], str(c["f"]), str(c["cnums"]), c["method"], c["userJ"], c["cplx"], c["timer"], c["print"], c["cond"] >= 0, c["body"]))
    tr = r.drive("lsq", cases)
    r.validate(tr, "TraceLsq", chunk=300, group="b")
    return r.finish(RULE)


if __name__ == "__main__":
    main("C13", check)
