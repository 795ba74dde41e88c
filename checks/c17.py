"""C17: a HybridUtfc's matrices are those of its bases, side by side."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Fr

from harness import bcases as B
from harness.common import main, parse_beh

RULE = ("every evaluation TLC enumerates (families with a common unit, order, full flag, differentiations), with bases of random size, "
        "constraints, domain and backend sharing the evaluation points; non-trivial: at least two bases")


def hybrid(rng, fams, d, full, ops, small_n=None):
    py = rng.random() < 0.3 and not (any(f in B.ELM and f != "ReLU" for f in fams) and ops + d > 1)
    N = rng.choice([2, 5, 7])
    for t in range(60):
        ms = [rng.choice([2, 3, 4] if t < 30 else [2, 3]) for _ in fams]
        p0 = B.mk(rng, fams[0], 1, ms[0], d=[d], api="utfc", full=full, ops=[1] * ops, ad=[rng.choice(["egrad", "egradSimple"]) for _ in range(ops)],
                  npts=rng.choice([1, 2, 3]), acc=None, N=N)
        if not p0:
            continue
        parts = [p0]
        for f, m in list(zip(fams, ms))[1:]:
            if f == fams[0] and rng.random() < 0.25:       # the same object once more
                parts.append(dict(parts[0], same=0))
                continue
            for u in range(30):
                c = dict(p0, fam=f, m=m)
                for k in ("scale", "w", "b", "wset"):
                    c.pop(k, None)
                c["L"] = [B.fr(rng.choice(B.LENS))] if u < 15 else p0["L"]
                if f == fams[0] and u >= 15 or f in ("FS", "Sin", "Sigmoid", "Swish", "Tanh"):
                    sh = Fr(0)
                    c["x0"] = p0["x0"]
                else:
                    c["x0"] = [rng.choice(B.X0S)]
                    sh = Fr(p0["x0"][0]) - Fr(c["x0"][0])
                c["pts"] = [[B.fr(Fr(*r[0]) + sh)] for r in p0["pts"]]
                c["nC"] = [B.nc_forms(rng, B.rand_nc(rng, m), "utfc")]
                if f in B.ELM:
                    c["w"], c["b"] = B.rand_weights(rng, f, 1, m, small=u > 10)
                    c["wset"] = rng.choice(["", "strided", "jnp"])
                c = B.finalize(c)
                if c:
                    parts.append(c)
                    break
            else:
                break
        if len(parts) == len(fams):
            break
    else:
        return None
    if py:
        parts[rng.randrange(len(parts))]["backend"] = "Python"
        for p in parts:
            if "same" in p:
                p["backend"] = parts[0]["backend"]
        path = "eager"
    else:
        path = rng.choice(["eager", "jit", "jit", "numpy" if not ops else "eager", "vmap" if False else "jit2"])
    return dict(id="h", parts=parts, path=path)


def check(r):
    r.build()
    ok, out = r.tlc("Hybrid", "HybridDeep.cfg" if r.thorough else "Hybrid.cfg", workers=1)
    r.count_model("Hybrid", ok, out)
    rng = r.rng
    seen = {}
    for b in parse_beh(out):
        seen[str(sorted(b.items()))] = b
    cases = []
    lost = 0
    for b in list(seen.values()):
        for _ in range(2 if not r.thorough else (4 if len(b["fams"]) < 3 else 2)):
            c = hybrid(rng, b["fams"], b["d"], b["full"], b["ops"])
            if not c:
                lost += 1
                continue
            cases.append(c)
            if len(b["fams"]) > 1:
                r.nontrivial.add((str(b), c["path"], str([(p["m"], str(p["nC"]), p["backend"], str(p["L"])) for p in c["parts"]])))
    groups = [["CP", "LeP", "ReLU"], ["FS", "Sin"], ["Sigmoid", "Swish"], ["Tanh"]]
    for d in (0, 1, 2, 3, 4, 8):       # three and four bases
        for full in (False, False, True):
            for _ in range(3):
                g = rng.choice(groups[:2] + groups)
                c = hybrid(rng, [rng.choice(g) for _ in range(rng.choice([3, 3, 4]))], d, full, rng.choice([0, 0, 1]))
                if c:
                    cases.append(c)
    for _ in range(30):       # bases made for different numbers of points
        c = hybrid(rng, [rng.choice(["CP", "LeP", "ReLU"]) for _ in range(rng.choice([2, 3]))], 0, False, 0)
        if c:
            c["parts"] = [{k: v for k, v in p.items() if k != "same"} for p in c["parts"]]
            c["parts"][rng.randrange(len(c["parts"]))]["N"] += rng.choice([1, 3])
            cases.append(c)
    print("cases", len(cases), "without exact points", lost)
    tr = r.drive("hybrid", cases)
    r.validate(tr, "TraceHybrid", chunk=300)
    return r.finish(RULE)


if __name__ == "__main__":
    main("C17", check)
