"""C11: after any history of assignments a CeSolver answers for its current inputs."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import ccases
from harness.common import main

RULE = ("after every assignment of a TLC-generated history over two solvers, each read equals the value for the current "
        "inputs (exact residues) and checkCe agrees with the specification")


def check(r):
    r.build()
    r.model("CeMachine", "CeMachineDeep.cfg" if r.thorough else "CeMachine.cfg")
    behs = r.behaviours("CeMachine", "CeSim.cfg", 800 if r.thorough else 110, 16)
    cases = [ccases.history(r.rng, b) for b in behs]
    for c in cases:
        for a, b in zip(c["ops"], c["ops"][1:]):
            r.nontrivial.add((a["op"], a.get("n"), b["op"], b.get("n"), a["i"] == b["i"]))
    tr = r.drive("ce", cases)
    r.validate(tr, "TraceCe", chunk=80, group="b")
    return r.finish(RULE)


if __name__ == "__main__":
    main("C11", check)
