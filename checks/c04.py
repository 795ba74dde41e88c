"""C04: automatic differentiation of the basis gives the basis' own derivatives, for any differentiation history."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main, parse_beh
from harness import bcases as B

RULE = ("the differentiation histories TLC enumerates (mode and variable per step, forward and backward; of the longest ones a sample), started from every accessor; integer "
        "tangents per point including zero; directional derivatives in several variables at once; derivatives of the basis "
        "composed with s -> s^2; all from VERIF_SEED.  Non-trivial: at least one differentiation step.")
UF = ("CP", "LeP", "FS", "Sigmoid", "Tanh", "Sin", "Swish", "ReLU")


def run(r):
    rng = r.rng
    cs = []
    for cfg in ["ADHist1.cfg", "ADHist2.cfg", "ADHist3.cfg"] + (["ADHist1Deep.cfg", "ADHist2Deep.cfg"] if r.thorough else []):
        ok, out = r.tlc("ADHist", cfg, workers=1)
        r.count_model(cfg, ok, out)
        dim = int(cfg[6])
        hs = parse_beh(out)
        long = [h for h in hs if len(h) == max(len(g) for g in hs) > 1]
        keep = 1600 if r.thorough else 200
        if len(long) > keep:
            kept = {id(h) for h in rng.sample(long, keep)}
            hs = [h for h in hs if len(h) < len(long[0]) or id(h) in kept]
        for h in hs:
            for _ in range(3 if len(h) == 1 else 2 if dim == 1 and len(h) == 2 else 1):
                fam = rng.choice(UF)
                ops = [x["var"] for x in h]
                ad = [x["mode"] for x in h]
                py = rng.random() < 0.3 and not (fam in B.ELM and len(h) > 1)
                # the same tangent factor must apply to every row where the mode is a scaling of the argument
                def mulf(rg, n, ad=ad):
                    cols = []
                    for a in ad:
                        if a in ("jvp", "vjp", "linearize"):
                            cols.append([rg.choice([0, 1, 2, -1, 3, -2]) for _ in range(n)])
                        elif a == "scaled":
                            cols.append([rg.choice([1, 2, -1, 4, -2])] * n)
                        else:
                            cols.append([1] * n)
                    return [[col[i] for col in cols] for i in range(n)]
                if dim == 1 and rng.random() < 0.7:
                    acc = rng.choice(["H", "H", "H", "dH", "d2H", "d4H", "d8H"])
                    api = "utfc"
                else:
                    acc = rng.choice([a for a, v in B.ACCN.items() if not any(v[dim:]) and (dim > 1 or len(a) < 4)])
                    acc = rng.choice([acc, "H"])
                    api = "mtfc"
                path = "eager" if py else rng.choice(["eager", "eager", "jit"])
                m = rng.choice([3, 4, 5, 6]) if dim == 1 else rng.choice([3, 4])
                c = B.mk(rng, fam, dim, m, acc=acc, backend="Python" if py else "C++", api=api, ops=ops, ad=ad, mulf=mulf,
                         path=path, npts=rng.choice([1, 2, 3]))
                if c:
                    cs.append(c)
    # differentiating accessors of high order, with factors
    for fam in UF:
        for acc in ("d4H", "d8H"):
            for path in ("eager", "jit"):
                for k in (1, 2):
                    c = B.mk(rng, fam, 1, rng.choice([10, 11, 12]) if fam in ("CP", "LeP") else rng.choice([2, 3, 4]), acc=acc, ops=[1] * k, ad=["jvp"] * k, path=path, npts=2,
                             mulf=lambda rg, n, k=k: [[rg.choice([0, 2, -1, 3]) for _ in range(k)] for _ in range(n)])
                    if c:
                        cs.append(c)
    # many differentiations of a multivariate accessor in one variable
    for fam in UF:
        for dim in (2, 3):
            v = rng.randint(1, dim)
            k = rng.choice([5, 6, 7, 8])
            c = B.mk(rng, fam, dim, rng.choice([9, 10]) if fam in ("CP", "LeP") and dim == 2 else 3, acc=rng.choice(["H", "Hx", "Hy2"]), ops=[v] * k, ad=["egrad"] * k,
                     path=rng.choice(["eager", "jit"]), npts=1)
            if c:
                cs.append(c)
    # zero tangents for every point: the derivative is zero, not an error
    for fam in UF:
        for dim in (1, 2):
            for path in ("eager", "jit"):
                c = B.mk(rng, fam, dim, 4, acc="H", ops=[1], ad=["jvp"], mulf=lambda rg, n: [[0]] * n, path=path, npts=2)
                if c:
                    cs.append(c)
    for _ in range(400 if r.thorough else 110):
        fam = rng.choice(["CP", "LeP"])
        dim = rng.choice([1, 2, 2, 3])
        c = B.mk(rng, fam, dim, rng.choice([3, 4, 5]), acc=rng.choice(["H", "H", "dH"] if dim == 1 else ["H", "H", "Hx", "Hxy", "Hy2"]),
                 backend=rng.choice(["C++", "C++", "Python"]), ndirs=rng.choice([1, 1, 2, 2, 3]), path="eager", npts=rng.choice([1, 2, 3]))
        if c:
            if c["backend"] == "C++":
                c["path"] = rng.choice(["eager", "jit"])
            cs.append(c)
        c = B.mk(rng, fam, rng.choice([1, 1, 2]), rng.choice([3, 4, 5, 6]), acc="H", backend=rng.choice(["C++", "C++", "Python"]),
                 sq=rng.choice([1, 2, 2, 3]), path="eager", npts=rng.choice([1, 2, 3]))
        if c:
            if c["backend"] == "C++":
                c["path"] = rng.choice(["eager", "jit"])
            cs.append(c)
    r.nontrivial |= {B.key(c) for c in cs}
    r.build()
    r.validate(r.drive("basis", cs), "TraceBasis", chunk=300)
    return r.finish(RULE)


if __name__ == "__main__":
    main("C04", run)
