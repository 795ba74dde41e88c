"""C07: basis objects do not interfere; compiled programs keep meaning the object they were compiled for."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main
from harness import bcases as B

RULE = ("histories generated by TLC's simulator from Registry.tla (create, set weights, compile, evaluate, run, drop), "
        "concretised with random families, domains, constraints and weights from VERIF_SEED; non-trivial: a history with at "
        "least one compiled run or weight change")
KIND = {"basis": ("utfc", 1, ("CP", "LeP", "FS")), "nbasis": ("mtfc", 0, ("CP", "LeP", "FS")), "elm": ("utfc", 1, B.ELM),
        "nelm": ("mtfc", 0, B.ELM), "raw": ("BF", 1, ("CP", "LeP", "FS", "LaP", "HoPpro", "HoPphy") + B.ELM)}
ACCS1 = {"H": [0], "dH": [1], "d2H": [2]}


def concretise(rng, hist):
    st, steps, comps = {}, [], {}
    for h in hist:
        o, k = h["o"], h["k"]
        if h["op"] == "crowd":
            steps.append({"op": "crowd", "o": o, "elm": rng.random() < 0.5})
        elif h["op"] == "create":
            api, dim, fams = KIND[k]
            dim = dim or rng.choice([2, 2, 3])
            fam = rng.choice(fams)
            backend = "Python" if rng.random() < 0.2 else "C++"
            c = B.mk(rng, fam, dim, rng.choice([2, 3, 4]), d=[0] * dim, backend=backend, api=api, full=False)
            if c is None:
                return None
            if api == "BF" and c["nC"][0]["k"] == "list":
                c["nC"][0]["form"] = "np32"
            c["wset"] = ""
            st[o] = c
            steps.append({"op": "create", "o": o, "case": dict(c)})
        elif h["op"] == "set":
            c = st[o]
            w, b = B.rand_weights(rng, c["fam"], c["dim"], c["m"], small=True)
            w = w if "w" in k else c["w"]
            b = b if "b" in k else c["b"]
            c = st[o] = dict(c, w=w, b=b)
            steps.append({"op": "set", "o": o, "k": k, "w": w, "b": b, "strided": rng.random() < 0.2})
            if rng.random() < 0.3:
                steps.append({"op": "get", "o": o})
        elif h["op"] in ("eval", "compile"):
            c = st[o]
            if h["op"] == "compile" and c["backend"] == "Python":
                comps[len(comps) + 1] = None
                continue
            full = rng.random() < 0.4
            accs = ACCS1 if c["dim"] == 1 else {a: v[:c["dim"]] for a, v in B.ACCN.items() if a in ("H", "Hx", "Hy", "Hxy")}
            if c["backend"] == "Python" and c["fam"] in B.ELM:
                accs = {"H": [0] * c["dim"]}
            acc = rng.choice(sorted(accs))
            ad = rng.randint(1, c["dim"]) if h["op"] == "compile" and rng.random() < 0.3 else 0
            d = list(accs[acc])
            if ad:
                d[ad - 1] += 1
            e = B.at(rng, c, d, full)
            if e is None:
                if h["op"] == "compile":
                    comps[len(comps) + 1] = None
                continue
            ee = {x: e[x] for x in ("pts", "d", "full", "scale")}
            if h["op"] == "eval":
                steps.append({"op": "eval", "o": o, "acc": acc, "via": rng.choice(["acc", "raw"]), "e": ee})
            else:
                f = len(comps) + 1
                comps[f] = (o, d, full)
                steps.append({"op": "compile", "o": o, "f": f, "acc": acc, "ad": ad, "d0": list(accs[acc]), "e": ee, "warm": rng.random() < 0.6})
        elif h["op"] == "run":
            if comps.get(o) is None:
                continue
            oo, d, full = comps[o]
            e = B.at(rng, st[oo], d, full)
            if e:
                steps.append({"op": "run", "o": oo, "f": o, "e": {x: e[x] for x in ("pts", "d", "full", "scale")}})
        elif h["op"] == "drop":
            steps.append({"op": "drop", "o": o})
    return steps


def run(r):
    r.model("Registry", "RegistryDeep.cfg" if r.thorough else "Registry.cfg")
    behs = r.behaviours("Registry", "RegistrySim.cfg", 400 if r.thorough else 90, 24)
    cs = []
    for i, h in enumerate(behs):
        # a crowd of other objects created first, so that identifiers reach three digits
        h = [{"op": "crowd", "o": n, "k": ""} for n in {0: [100, 60], 1: [300], 2: [40]}.get(i, [])] + list(h)
        s = concretise(r.rng, h)
        if s:
            cs.append({"steps": s})
            if any(x["op"] in ("run", "set") for x in s):
                r.nontrivial.add(str(s))
    r.build()
    r.validate(r.drive("registry", cs), "TraceRegistry", chunk=300, group="b")
    return r.finish(RULE)


if __name__ == "__main__":
    main("C07", run)
