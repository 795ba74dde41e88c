"""C18: egrad and egradSimple are exact derivatives, for every function, argument structure and history."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main, parse_beh

RULE = ("every differentiation history TLC enumerates, on random integer polynomials (elementwise and mixing elements, with step factors) of "
        "1-3 arguments of all structures; values compared exactly.  Non-trivial: at least one differentiation or one step factor.")
ARR = ["vec", "np", "mat", "mat2", "mat3", "scalar"]
ANY = ARR + ["dict", "tuple", "tfc", "robust", "c:vec", "f:vec"]


def term(rng, nv, deg=3, p_step=0.2):
    e = [0] * nv
    for _ in range(rng.randint(0, deg + 1)):
        e[rng.randrange(nv)] += 1
    s = [rng.randint(1, nv)] if rng.random() < p_step else []
    return dict(c=rng.choice([-3, -2, -1, 1, 2, 5]), e=e, s=s)


def mk(rng, hist, post):
    n = max([h["j"] for h in hist] + [1])
    n = rng.randint(n, rng.choice([3, 3, 5]))
    simple = any(h["op"] == "egradSimple" for h in hist)
    style = rng.choice(["elementwise", "mixed"])
    case = dict(hist=hist, post=post, style=style, out="leaf")
    if style == "elementwise":
        N = rng.choice([1, 2, 4])
        form = rng.choice([f for f in ARR if f != "scalar" or N == 1])
        if form in ("mat2", "mat3"):
            N = 4
        case["forms"] = [form] * n
        if not simple and rng.random() < 0.2:
            case["forms"] = [rng.choice(["c:vec", "f:vec"])] * n
        case["owner"] = list(range(1, n + 1))
        terms = [term(rng, n, deg=4) for _ in range(rng.randint(1, 4))]
        if any(f.startswith("c:") for f in case["forms"]):
            for t in terms:
                t["s"] = []
        case["outs"] = [terms]
        case["N"] = N
        owner, outs = [], []
        for i in range(N):
            owner += list(range(1, n + 1))
        for i in range(N):
            outs.append([dict(c=t["c"], e=[0] * (i * n) + t["e"] + [0] * ((N - 1 - i) * n), s=[v + i * n for v in t["s"]]) for t in terms])
        vals = [rng.randint(-3, 3) for _ in owner]
        case.update(owner_all=owner, outs_all=outs, vals=vals)
    else:
        forms = [rng.choice(ARR if simple else ANY) for _ in range(n)]
        if any(f.startswith("c:") for f in forms) or any(f.startswith("f:") for f in forms):
            forms = [forms[[k for k, f in enumerate(forms) if ":" in f][0]]] * n
        owner = []
        for a, f in enumerate(forms):
            owner += [a + 1] * (1 if f == "scalar" else 2 if f in ("mat2", "mat3") else rng.choice([2, 3]))
        case["forms"], case["owner"] = forms, owner
        nv = len(owner)
        case["out"] = rng.choice(["leaf", "tuple", "dict", "mat"])
        cplx = any(f.startswith("c:") for f in forms)
        case["outs"] = [[term(rng, nv, p_step=0 if cplx else 0.2) for _ in range(rng.randint(1, 4))] for _ in range(rng.choice([2, 3]))]
        case["vals"] = [rng.randint(-3, 3) for _ in owner]
    if rng.random() < 0.4:
        case["warm"] = dict(forms=warm(rng, case, simple), vals=[rng.randint(-3, 3) for _ in case["vals"]])
    return case


def warm(rng, case, simple):
    """Forms of the arguments of an earlier call."""
    forms = case["forms"]
    other = {"c:": ["", "f:"], "f:": ["", "c:"], "": ["f:", "c:"]}
    steps = any(t["s"] for o in case["outs"] for t in o)
    k = rng.choice(["same", "type", "type", "structure"])
    if simple or k == "same":
        return list(forms)
    if k == "type":
        cur = forms[0][:2] if ":" in forms[0] else ""
        t = rng.choice([q for q in other[cur] if not (steps and q == "c:")])
        return [t + f.split(":")[-1] for f in forms]
    if case["style"] == "elementwise":
        return ["vec" if f in ("np", "mat", "mat2", "mat3") else f for f in forms]
    return [f if f == "scalar" or ":" in f else rng.choice(["vec", "dict", "tuple", "tfc", "robust"]) for f in forms]


def check(r):
    r.build()
    r.model("Egrad", "EgradDeep.cfg" if r.thorough else "Egrad.cfg")
    hists = [[]] * 40
    for cfg in ("EgradGen.cfg", "EgradGenDeep.cfg"):
        ok, out = r.tlc("EgradGen", cfg, workers=1)
        r.count_model(cfg, ok, out)
        hists += [h for h in parse_beh(out) if cfg != "EgradGenDeep.cfg" or len(h) == 3]
    rng = r.rng
    short = [h for h in hists if len(h) < 3]
    long_ = [h for h in hists if len(h) == 3]
    if not r.thorough:
        long_ = rng.sample(long_, 350)
    cases = []
    for h in short * (6 if r.thorough else 2) + long_ * (3 if r.thorough else 1):
        c = mk(rng, h, rng.choice(["", "", "jit", "default", "again"]))
        cases.append(c)
        if h or any(t["s"] for o in c["outs"] for t in o):
            r.nontrivial.add(str((h, c["forms"], c["outs"], c["vals"])))
    tr = r.drive("egrad", cases)
    r.validate(tr, "TraceEgrad", chunk=400)
    return r.finish(RULE)


if __name__ == "__main__":
    main("C18", check)
