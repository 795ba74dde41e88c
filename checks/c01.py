"""C01: univariate basis matrices have the exact values of their definition."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main
from harness import bcases as B
from fractions import Fraction as Fr

RULE = ("systematic product family x backend x interface x number of functions x derivative order, with random "
        "domains, constraint lists, weights and points (inside and outside the domain) drawn from VERIF_SEED; a case "
        "is non-trivial when it has at least one retained column")


def cases(r):
    rng = r.rng
    out = []
    reps = 6 if r.thorough else 2
    ms = {"poly": [1, 2, 3, 4, 5, 7, 10, 14, 22, 33], "FS": [1, 2, 3, 4, 6, 9, 15, 21, 33], "elm": [1, 2, 3, 5, 9]}
    for fam in B.POLY + ("FS",) + B.ELM:
        grp = "poly" if fam in B.POLY else ("FS" if fam == "FS" else "elm")
        for backend in ("C++", "Python"):
            for m in ms[grp]:
                dm = 12
                slow = backend == "Python" and fam in ("Sigmoid", "Tanh", "Sin", "Swish")   # nested jax derivatives
                ds = range(0, dm + 1)
                if slow and not r.thorough:
                    ds = {1: [0, 1], 3: [0, 1, 2, 3], 5: [0, 2, 4]}.get(m, [0])
                for d in ds:
                    for _ in range(1 if slow else reps):
                        api = "BF" if fam in ("LaP", "HoPpro", "HoPphy") else rng.choice(["utfc", "utfc", "BF"])
                        got = None
                        for _try in range(25):
                            L = rng.choice(B.LENS)
                            small = _try > 8
                            if small:
                                L = Fr(rng.choice([1, 2]))
                            pts = B.rand_points(rng, fam, 1, [L], rng.choice([1, 2, 3, 4]), big=(("out" if _try < 12 else True) if m > 9 or _try > 15 else False))
                            w, b = B.rand_weights(rng, fam, 1, m, small=small) if fam in B.ELM else ([], [])
                            if fam in ("Sigmoid", "Tanh", "Swish") and d <= 1 and rng.random() < 0.3:
                                b = [rng.choice([0, 1, -1, 3, 150, -150, 1200, -1200]) for _ in range(m)]
                                if fam == "Swish" :
                                    b = [x if abs(x) < 100 or d == 0 else 0 for x in b]
                            if fam == "ReLU" and rng.random() < 0.5:
                                B.kink(rng, L, pts, w, b)
                            nC = B.rand_nc(rng, m)
                            if api == "BF" and nC["k"] == "list":
                                nC["form"] = "np32"
                            c = dict(fam=fam, dim=1, m=m, nC=[nC], d=[d], L=[B.fr(L)], x0=[rng.choice(B.X0S)], pts=pts,
                                     w=w, b=b, api=api, backend=backend, full=rng.random() < 0.4)
                            if api == "utfc" and d in (0, 1, 2, 4, 8):
                                c["acc"] = {0: "H", 1: "dH", 2: "d2H", 4: "d4H", 8: "d8H"}[d]
                            if fam in B.ELM:
                                c["wset"] = rng.choice(["", "", "strided", "jnp"])
                            if rng.random() < 0.08:
                                c["reps"] = rng.choice([40, 400, 3000])
                            got = B.finalize(c)
                            if got:
                                break
                        if got:
                            if rng.random() < 0.5 and got.get("nC")[0]["k"] == "list" and len(got["nC"][0]["v"]) > got["m"] - 1 and got["api"] == "utfc":
                                continue
                            out.append(got)
    # arguments of the activations from moderate to saturated
    for fam in ("Sigmoid", "Tanh", "Swish"):
        for backend in ("C++", "Python"):
            for d in (0, 1, 2, 4):
                for _ in range((3 if backend == "Python" else 10) * (3 if r.thorough else 1)):
                    if backend == "Python" and d > 1 and not r.thorough:
                        continue
                    c = B.mk(rng, fam, 1, rng.choice([1, 2, 3]), acc={0: "H", 1: "dH", 2: "d2H", 4: "d4H"}[d], backend=backend, wide=True, npts=rng.choice([1, 2]))
                    if c:
                        out.append(c)
    return out


def run(r):
    r.model("BasisRec", "BasisRecDeep.cfg" if r.thorough else "BasisRec.cfg")
    r.build()
    cs = cases(r)
    for c in cs:
        r.nontrivial.add((c["fam"], c["backend"], c["api"], c["m"], c["d"][0], str(c["L"]), str(c["nC"]), c["full"], str(c["pts"])))
    tr = r.drive("basis", cs)
    r.validate(tr, "TraceBasis", chunk=600)
    return r.finish(RULE)


if __name__ == "__main__":
    main("C01", run)
