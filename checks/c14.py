"""C14: partially evaluated functions keep their constants and take the rest in order."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main

RULE = ("every call of a function made by pe or pejit equals, exactly, the original function on the constants' values at "
        "construction and the current other arguments, with the original output structure, without running the function again")


def concretise(rng, beh):
    W = 4
    if rng.random() < 0.25:            # the same history with its arguments among twelve
        W = rng.choice([11, 12, 13])
        pos = rng.sample(range(1, W + 1), 4)
        beh = [dict(e, k=pos[e["k"] - 1]) if e["op"] == "change" else dict(e, n=W, cs=[pos[k - 1] for k in e["cs"]]) if e["op"] == "new" else e for e in beh]
    af = [rng.choice(["vec", "np", "mat", "scalar", "dict", "tuple", "tfc", "robust", "vec", "int", "pyint", "pyfloat"]) for _ in range(W)]
    val = lambda k: [rng.randint(-4, 4) for _ in range(1 if af[k] in ("scalar", "pyint", "pyfloat") else rng.choice([3]))]
    case = dict(argforms=af, start=[val(k) for k in range(W)], ops=[], funs=[])
    for e in beh:
        op = dict(e)
        if e["op"] == "change":
            op["v"] = val(e["k"] - 1)
        elif e["op"] == "call":
            op["jit"] = rng.random() < 0.25
        else:
            n, cs = e["n"], e["cs"]
            tree = rng.choice(["leaf", "leaf", "tuple", "list", "dict", "nest"])
            forms = []
            for _ in range(1 if tree == "leaf" else rng.choice([1, 2, 3])):
                r = rng.random()
                if r < 0.15:
                    forms.append(dict(k="id", a=rng.randint(1, n), terms=[]))
                    continue
                pool = list(range(1, n + 1))
                if r < 0.3 and cs:
                    pool = list(cs)       # depends on constants only
                terms = [[rng.choice([-2, -1, 1, 2, 3]), rng.sample(pool, rng.randint(0, min(2, len(pool))))] for _ in range(rng.randint(1, 3))]
                if r > 0.5:               # every argument enters
                    terms += [[k + 1, [a]] for k, a in enumerate(range(1, n + 1))]
                forms.append(dict(k="sum", a=rng.choice([1, 2]), terms=terms))
            case["funs"].append(dict(forms=forms, tree=tree, jit=rng.random() < 0.4))
        case["ops"].append(op)
    return case


def check(r):
    r.build()
    r.model("Frozen", "FrozenDeep.cfg" if r.thorough else "Frozen.cfg")
    behs = r.behaviours("Frozen", "FrozenSim.cfg", 3000 if r.thorough else 500, 14)
    cases = []
    for b in behs:
        if not any(e["op"] == "call" for e in b):
            continue
        c = concretise(r.rng, b)
        cases.append(c)
        for e in c["ops"]:
            if e["op"] == "new":
                r.nontrivial.add((e["n"], tuple(e["cs"])))
    tr = r.drive("pev", cases)
    r.validate(tr, "TracePe", chunk=1500, group="b")
    return r.finish(RULE)


if __name__ == "__main__":
    main("C14", check)
