"""C06: domain map and collocation grid."""
import sys, os, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main
from harness import bcases as B
from fractions import Fraction as Fr

RULE = ("product basis x backend x interface x dimension, with random sizes, domains (negative, reversed, default x0) and "
        "argument containers from VERIF_SEED; non-trivial: at least three points")


def cases(r):
    rng = r.rng
    out = []
    bases = ("CP", "LeP", "FS", "ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish", "ELMReLU")
    for rep in range(10 if r.thorough else 3):
        for basis in bases:
            for backend in ("C++", "Python"):
                for api, dim in (("utfc", 1), ("mtfc", 1), ("mtfc", 2), ("mtfc", 3), ("mtfc", 4)):
                    top = {1: 40, 2: 12, 3: 6, 4: 4}[dim]
                    n = [rng.choice([2, 3, 4, rng.randint(2, top)]) for _ in range(dim)]
                    form = rng.choice(["plain", "plain", "none", "np", "int"] + (["jnp", "tuple", "npint", "jnpint"] if api == "mtfc" else []))
                    Ls = [rng.choice([Fr(1), Fr(2), Fr(4), Fr(1, 2), Fr(3), Fr(1, 4), Fr(5), Fr(8)]) for _ in range(dim)]
                    if rng.random() < 0.1 and "int" not in form:
                        Ls = [-x for x in Ls]
                    x0 = [rng.choice(B.X0S) for _ in range(dim)]
                    if form == "none":
                        x0 = [0.0] * dim
                    elif form in ("plain", "np", "tuple", "jnp") and rng.random() < 0.4:     # not exact in single precision
                        x0 = [rng.choice([0.1, -2.7, 1 / 3, 1000.1, -0.05]) for _ in range(dim)]
                    if rng.random() < 0.1 and dim < 3 and form not in ("npint", "jnpint"):
                        n = [rng.choice([127, 128, 150, 257, 300])] + [2] * (dim - 1)
                    if form in ("int", "npint", "jnpint"):
                        if basis == "FS":
                            form = "plain"
                        else:
                            x0 = [float(rng.randint(-4, 7)) for _ in range(dim)]
                            Ls = [Fr(rng.randint(1, 6)) for _ in range(dim)]
                    cs = 1
                    for x in Ls:
                        cs = math.lcm(cs, abs(x.numerator))
                    deg = rng.randint(1, 5)
                    out.append(dict(api=api, basis=basis, backend=backend, n=n, form=form, x0=x0, L=[B.fr(x) for x in Ls], cs=cs,
                                    deg=deg, nC=rng.randint(-1, deg)))
    return out


def run(r):
    r.model("Grid", "GridDeep.cfg" if r.thorough else "Grid.cfg")
    cs = cases(r)
    for c in cs:
        if math.prod(c["n"]) >= 3:
            r.nontrivial.add(str(c))
    r.build()
    r.validate(r.drive("grid", cs), "TraceGrid", chunk=200)
    return r.finish(RULE)


if __name__ == "__main__":
    main("C06", run)
