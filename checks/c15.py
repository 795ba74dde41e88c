"""C15: component constraint graphs: exactly the acyclic orientations, saved as such."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main, parse_beh

RULE = ("goodTargets select exactly the acyclic orientations for every enumerated graph; the files written by SaveGraphs hold exactly "
        "those graphs, each once, linked from the main page")
NODES = ["u", "v", "w", "theta", "x1", "psi_2", "T"]


def named(rng, n):
    return rng.sample(NODES, n)


def check(r):
    r.build()
    r.model("GraphAlg", "GraphAlgDeep.cfg" if r.thorough else "GraphAlg.cfg")
    ok, out = r.tlc("GraphAlg", "GraphGenDeep.cfg" if r.thorough else "GraphGen.cfg")
    graphs = parse_beh(out)
    r.count_model("GraphGen", ok, out)
    rng = r.rng
    cases = []
    for g in graphs:
        cases.append(dict(op="build", N=named(rng, g["n"]), E=g["E"], names=["c%d" % k for k in range(len(g["E"]))]))
    for k in range(300 if r.thorough else 60):   # larger ones
        n = rng.randint(4, 7)
        E = [rng.sample(range(1, n + 1), 2) for _ in range(rng.randint(3, 7 if r.thorough else 6))]
        cases.append(dict(op="build", N=named(rng, n), E=E, names=["c%d" % j for j in range(len(E))]))
    for k in range(40):                          # edges that name an unknown node
        n = rng.randint(1, 4)
        E = [rng.sample(range(1, n + 1), 2) for _ in range(rng.randint(0, 2))] if n > 1 else []
        bad = [rng.randint(1, n), n + 1]
        rng.shuffle(bad)
        E.insert(rng.randint(0, len(E)), bad)
        cases.append(dict(op="build", N=named(rng, n), E=E, names=["c%d" % j for j in range(len(E))]))
    for k in range(200 if r.thorough else 44):
        n = rng.randint(1, 4)
        ne = rng.choice([0, 1, 2, 2, 3, 3, 4]) if n > 1 else 0
        if k == 0:
            n, ne = 3, 4
        if k == 1:
            n, ne = 4, 5
        E = [rng.sample(range(1, n + 1), 2) for _ in range(ne)]
        cases.append(dict(op="save", N=named(rng, n), E=E, names=rng.sample(["alpha", "b1", "constraint 3", "k", "e5"], ne), all=k == 1 or rng.random() < 0.5,
                          pdf=rng.random() < 0.15, dir=rng.choice([["o"], ["a", "b"], []])))
    for c in cases:
        r.nontrivial.add((c["op"], len(c["N"]), str(c["E"])))
    rng.shuffle(cases)
    tr = r.drive("graph", cases)
    r.validate(tr, "TraceGraph", chunk=1000)
    return r.finish(RULE, exhaustive=True)


if __name__ == "__main__":
    main("C15", check)
