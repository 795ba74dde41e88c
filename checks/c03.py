"""C03: nC removes exactly the named functions, however it is written."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main, parse_beh
from harness import bcases as B

RULE = ("every constraint argument TLC enumerates for small bases (integers, lists in any order and with repetitions; one "
        "to three dimensions), each replayed in a family/backend/container form drawn from VERIF_SEED, plus larger random "
        "ones; a case is non-trivial when it removes at least one function")
FORMS_U = ["list", "tuple", "jnp", "np", "np32", "npstride", "jnp64"]


def generated(r, cfg):
    ok, out = r.tlc("NcGen", cfg, workers=1)
    r.count_model(cfg, ok, out)
    return parse_beh(out)


def form(rng, e, dim, fam):
    e = dict(e)
    if e["k"] == "int":
        e["form"] = rng.choice(["int", "npint"]) if (dim == 1 or fam in B.ELM) else "int"
    else:
        e["form"] = rng.choice(FORMS_U if (dim == 1 or fam in B.ELM) else ["list", "tuple", "jnp", "np"])
    return e


def run(r):
    rng = r.rng
    r.model("Odometer", "Odometer.cfg")
    gens = ["NcGen1.cfg", "NcGen2.cfg", "NcGen3.cfg"] + (["NcGen1Deep.cfg", "NcGen2Deep.cfg"] if r.thorough else [])
    cs = []
    for g in gens:
        beh = generated(r, g)
        if not beh:
            raise RuntimeError("no inputs generated")
        for b in beh:
            dim, m = len(b["nC"]), b["m"]
            for api in (["utfc", "elm", "mtfc1"] if dim == 1 else ["mtfc"]):
                if api == "utfc":
                    fam, dd, a = rng.choice(("CP", "LeP", "FS", "Sigmoid", "Tanh", "Sin", "Swish", "ReLU")), 1, "utfc"
                elif api == "elm":
                    fam, dd, a = rng.choice(B.ELM), rng.choice([2, 3]), "mtfc"
                elif api == "mtfc1":
                    fam, dd, a = rng.choice(("CP", "LeP", "FS")), 1, "mtfc"
                else:
                    fam, dd, a = rng.choice(("CP", "LeP", "FS")), dim, "mtfc"
                for full in (False, True):
                    if full and rng.random() < 0.7:
                        continue
                    nC = [form(rng, e, 1 if a == "utfc" else dd if fam not in B.ELM else 1, fam) for e in b["nC"]]
                    if a == "mtfc" and fam not in B.ELM and len(nC) == 1:
                        nC = [form(rng, e, 2, fam) for e in b["nC"]]
                    be = rng.choice(["C++", "C++", "Python"])
                    c = B.mk(rng, fam, dd, m, acc="H", backend=be, api=a, nC=nC, full=full,
                             path="eager" if be == "Python" or rng.random() < 0.7 else "jit", npts=2)
                    if c:
                        cs.append(c)
    for _ in range(900 if r.thorough else 250):
        fam = rng.choice(B.MFAMS)
        dim = rng.choice([1, 1, 2, 2, 3, 4])
        m = rng.choice([5, 6, 8, 12]) if dim == 1 else rng.choice([4, 5, 6]) if dim < 4 else rng.choice([2, 3, 4])
        backend = rng.choice(["C++", "C++", "Python"])
        acc = rng.choice(["H", "H", "dH"]) if dim == 1 else rng.choice(["H", "H", "Hx", "Hxy"])
        path = "eager"
        if backend == "C++" and rng.random() < 0.25:
            path = "jit"
        if backend == "Python" and fam in B.ELM:
            acc = "H"
        nC = None
        if dim > 1 and fam not in B.ELM and rng.random() < 0.75:      # otherwise most arguments remove no product at all
            nC = [B.nc_forms(rng, B.rand_nc(rng, m, none_ok=False), "entry") for _ in range(dim)]
        c = B.mk(rng, fam, dim, m, acc=acc, backend=backend, path=path, nC=nC)
        if c:
            cs.append(c)
    for _ in range(400 if r.thorough else 80):       # one array for all dimensions
        dim = rng.choice([1, 2, 2, 3])
        m = rng.choice([3, 4, 5, 6])
        nC = [dict(k="list", v=rng.sample(range(m), rng.randint(0 if k else 1, m - 1)), form="list") for k in range(dim)]
        if max(len(set(e["v"])) for e in nC) > m - 1:
            continue
        rng.shuffle(nC)
        backend = rng.choice(["C++", "C++", "Python"])
        c = B.mk(rng, rng.choice(("CP", "LeP", "FS")), dim, m, acc=rng.choice(["H", "Hx"]), backend=backend, api="mtfc", nC=nC, npts=2,
                 path="eager" if backend == "Python" else rng.choice(["eager", "jit"]))
        if c:
            c["nc2d"] = rng.choice(["jnp", "jnp", "np"])
            cs.append(c)
    for _ in range(300 if r.thorough else 60):       # many functions removed
        fam = rng.choice(("CP", "LeP", "FS", "ReLU", "Sin"))
        m = rng.choice([8, 10, 13, 16])
        v = rng.sample(range(m), rng.randint(5, m - 1))
        nC = [B.nc_forms(rng, dict(k="list", v=v) if rng.random() < 0.7 else dict(k="int", v=[rng.randint(5, m - 1)]), "utfc")]
        backend = rng.choice(["C++", "C++", "Python"])
        c = B.mk(rng, fam, 1, m, acc=rng.choice(["H", "dH"]) if backend == "C++" else "H", backend=backend, path="eager" if backend == "Python" else rng.choice(["eager", "jit"]), nC=nC)
        if c:
            cs.append(c)
    for k, c in enumerate(cs):
        if any(e["v"] not in ([0], [-1]) for e in c["nC"]):
            r.nontrivial.add(B.key(c))
    r.build()
    r.validate(r.drive("basis", cs), "TraceBasis", chunk=300)
    return r.finish(RULE)


if __name__ == "__main__":
    main("C03", run)
