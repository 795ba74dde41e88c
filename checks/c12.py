"""C12: LS, LsClass and ScaledQrLs return the least-squares solution."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import lcases
from harness.common import main

RULE = ("each returned solution satisfies the normal equations (and is orthogonal to the null space) in two prime fields; constants "
        "keep the value they had at construction; structure, caller's arguments and timer output as specified")


def check(r):
    r.build()
    r.model("Frozen", "FrozenDeep.cfg" if r.thorough else "Frozen.cfg")
    cases = [lcases.linear(r.rng, ("LS", "LsClass")[k % 2]) for k in range(2500 if r.thorough else 260)]
    qr = [lcases.scaled_qr(r.rng) for k in range(1000 if r.thorough else 120)]
    r.nontrivial |= {("Qr", len(c["A"]), len(c["A"][0]), len(c["runs"]), c["flat"], str(c["A"])) for c in qr}
    for c in cases:
        r.nontrivial.add((c["fn"], c["struct"], str(c["shapes"]), str(c["cnums"]), str(c["roles"]), c["method"], c["userJ"], c["cplx"], c["timer"]))
    cases += qr
    r.rng.shuffle(cases)
    tr = r.drive("lsq", cases)
    r.validate(tr, "TraceLsq", chunk=300, group="b")
    return r.finish(RULE)


if __name__ == "__main__":
    main("C12", check)
