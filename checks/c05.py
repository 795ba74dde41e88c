"""C05: the same matrix whatever the execution path (eager, compiled, mapped, partially evaluated; either backend)."""
import sys, os
from fractions import Fraction as F
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main, MachineryError
from harness import bcases as B

RULE = ("product of family x dimension x execution path x differentiation x full flag, random shapes and inputs from "
        "VERIF_SEED; each recorded result is compared with the specification's matrix, which has no notion of path; "
        "non-trivial: any path other than a plain eager call")
UF = ("CP", "LeP", "FS", "Sigmoid", "Tanh", "Sin", "Swish", "ReLU")
CPP = ["eager", "numpy", "numpystride", "jit", "jit2", "jitclosure", "jitconst", "jitjit", "vmap", "jitvmap", "vmapjit", "pejit",
       "cond", "fori", "scan", "twice", "jitother", "xi", "jitxi", "remat", "jitrev", "aot", "jaxpr", "while", "lmap", "jitlmap"]
PYP = ["eager", "numpy", "numpystride", "pejit", "xi", "complex", "cstep"]


def cases(r):
    rng = r.rng
    out = []
    reps = 4 if r.thorough else 1
    for _ in range(reps):
        for fam in UF:
            for dim in (1, 2, 3):
                for backend, paths in (("C++", CPP), ("Python", PYP)):
                    for path in paths:
                        if fam == "ReLU" and path in ("cstep", "complex"):    # not an analytic function
                            continue
                        for nops in (0, 1):
                            if path in ("complex",) and nops or path == "cstep" and not nops:
                                continue
                            if path in ("xi", "jitxi", "fori", "scan", "jitrev", "remat", "aot", "while", "lmap") and dim == 3 and not r.thorough:
                                continue
                            if dim == 3 and nops and not r.thorough and path != "cstep":
                                continue
                            if backend == "Python" and fam in B.ELM and nops and path != "cstep" and dim > 1:
                                continue
                            m = rng.choice([2, 3, 4, 5]) if dim == 1 else rng.choice([2, 3])
                            acc = "H" if rng.random() < 0.6 else (rng.choice(["dH", "d2H"]) if dim == 1 else rng.choice(["Hx", "Hy", "Hxy"]))
                            if backend == "Python" and fam in B.ELM and acc != "H":
                                acc = "H" if rng.random() < 0.7 else acc
                            if path == "cstep" and fam in B.ELM:
                                acc = "H"
                            ops = [rng.randint(1, dim) for _ in range(nops)]
                            c = B.mk(rng, fam, dim, m, acc=acc, backend=backend, ops=ops, ad=["egrad"] * nops, path=path,
                                     npts=rng.choice([1, 2, 3, 3, 5]), reps=rng.choice([1, 1, 1, 7, 60, 700]))
                            if c:
                                out.append(c)
        # high orders reached by differentiating a compiled accessor of high order
        for fam in UF:
            for path in ("jit", "jitjit", "vmap", "eager"):
                k = rng.choice([1, 1, 2, 3])
                c = B.mk(rng, fam, 1, rng.choice([3, 5, 11, 13] if fam in ("CP", "LeP") else [2, 3, 4, 5]), acc="d8H", ops=[1] * k,
                         ad=["egrad"] * k, path=path, npts=rng.choice([1, 2, 3]))
                if c:
                    out.append(c)
        # mixed derivatives of high order of compiled multivariate accessors
        for fam in UF:
            for dim in (2, 3, 3):
                for path in ("jit", "jitjit", "vmap", "jitvmap", "eager"):
                    accs = [a for a, v in B.ACCN.items() if not any(v[dim:]) and sum(v) >= 1]
                    k = rng.choice([0, 1, 2, 2])
                    c = B.mk(rng, fam, dim, rng.choice([4, 5, 6] if fam in ("CP", "LeP") else [2, 3]), acc=rng.choice(accs),
                             ops=[rng.randint(1, dim)] * k if rng.random() < 0.5 else [rng.randint(1, dim) for _ in range(k)],
                             ad=["egrad"] * k, path=path, npts=rng.choice([1, 2]))
                    if c:
                        out.append(c)
        # executions at the same time, of one object or of one program
        for fam in UF:
            for dim in (1, 2):
                for path in ("threads", "parallel"):
                    k = rng.choice([0, 0, 1])
                    c = B.mk(rng, fam, dim, rng.choice([4, 5, 6]) if dim == 1 else rng.choice([3, 4]), acc=rng.choice(["H", "dH"]) if dim == 1 else rng.choice(["H", "Hx"]),
                             ops=[1] * k, ad=["egrad"] * k, path=path, npts=rng.choice([3, 5]), reps=rng.choice([700, 1500]))
                    if c:
                        out.append(c)
        # batches of rows of points, shared coordinates, and points of other real types
        for fam in UF:
            for dim in (1, 2, 3):
                for backend in ("C++", "Python"):
                    for path in ["rows", "vmap2"] + (["jitrows", "jitcols", "jitvmap2"] if backend == "C++" else []) + (["half"] + ["jithalf"] * (backend == "C++") if dim > 1 else ["jitcolumn"] * (backend == "C++")):
                        nops = rng.choice([0, 0, 1]) if path not in ("half", "jithalf", "jitcolumn") else 0
                        acc = rng.choice(["H", "H", "dH"]) if dim == 1 else rng.choice(["H", "H", "Hy"])
                        if backend == "Python" and fam in B.ELM:
                            acc, nops = "H", 0
                        c = B.mk(rng, fam, dim, rng.choice([2, 3, 4]) if dim == 1 else rng.choice([2, 3]), acc=acc, backend=backend,
                                 ops=[rng.randint(1, dim) for _ in range(nops)], ad=["egrad"] * nops, path=path, npts=rng.choice([2, 2, 3] if path == "jitcols" else [1, 2, 3, 5]))
                        if c:
                            out.append(c)
        for fam in ("CP", "LeP", "ReLU"):
            for dim in (1, 2, 3):
                for path in ("f32", "jitf32", "int", "jitint", "vmapint", "jitmixed"):
                    for _ in range(200):
                        c = B.mk(rng, fam, dim, rng.choice([2, 3, 4]) if dim == 1 else rng.choice([2, 3]), acc=rng.choice(["H", "dH"]) if dim == 1 else rng.choice(["H", "Hx"]),
                                 backend="C++", path=path, npts=rng.choice([1, 2, 2, 3]))
                        if c and exact(c, path):
                            out.append(c)
                            break
    return out


def exact(c, path):
    """The points are exact in the other type."""
    for row in c["pts"]:
        for k, q in enumerate(row):
            x = F(*q) + F(c["x0"][k] or 0)
            if (x * 4).denominator != 1 if path.endswith("f32") else x.denominator != 1:
                return False
    return True


def run(r):
    r.model("Paths", "Paths.cfg")
    r.model("Concur", "ConcurDeep.cfg" if r.thorough else "Concur.cfg")
    if "OwnResult is violated" not in r.model("Concur", "ConcurShared.cfg", must_hold=False):
        raise MachineryError("Concur: shared work arrays should break OwnResult")
    cs = cases(r)
    r.nontrivial |= {B.key(c) for c in cs if c["path"] != "eager"}
    r.build()
    r.validate(r.drive("basis", cs), "TraceBasis", chunk=300)
    return r.finish(RULE)


if __name__ == "__main__":
    main("C05", run)
