"""C02: the multivariate basis is every product of total degree <= deg, in a fixed order, with exact derivatives."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main
from harness import bcases as B

RULE = ("systematic product family x backend x dimension x functions per dimension x accessor/derivative tuple, with "
        "random domains, constraint entries, weights and points from VERIF_SEED")


def cases(r):
    rng = r.rng
    out = []
    reps = 5 if r.thorough else 1
    for fam in B.MFAMS:
        for backend in ("C++", "Python"):
            slow = backend == "Python" and fam in ("Sigmoid", "Tanh", "Sin", "Swish")
            for dim in (1, 2, 3, 4):
                ms = [1, 2, 3, 4, 6] if dim < 3 else [1, 2, 3, 4]
                if r.thorough and dim < 4:
                    ms = ms + [5, 8]
                for m in ms:
                    accs = [a for a, v in B.ACCN.items() if not any(v[dim:])]
                    ds = [[rng.choice([0, 0, 1, 1, 2, 3, 4]) for _ in range(dim)] for _ in range(6)]
                    if slow and not r.thorough:
                        accs = [a for a in accs if m in (2, 4) or a == "H"]
                        ds = ds[:1] if m == 2 else []
                    for _ in range(reps):
                        for a in accs:
                            out.append(B.mk(rng, fam, dim, m, backend=backend, api="mtfc", acc=a,
                                            reps=rng.choice([1] * 12 + [50, 700])))
                        for d in ds:
                            out.append(B.mk(rng, fam, dim, m, d=d, backend=backend, api="mtfc"))
    for fam in ("Sigmoid", "Tanh", "Swish"):      # arguments of the activations from moderate to saturated
        for backend in ("C++", "Python"):
            for dim in (1, 2, 3):
                for _ in range((2 if backend == "Python" else 8) * reps):
                    out.append(B.mk(rng, fam, dim, rng.choice([1, 2, 3]), d=[rng.choice([0, 0, 1] if backend == "C++" else [0]) for _ in range(dim)], backend=backend, api="mtfc",
                                    wide=True, npts=rng.choice([1, 2])))
    # derivative orders up to seven in one variable, also together
    for fam in ("CP", "LeP", "FS", "Sin"):
        for dim in (2, 3):
            for _ in range(6 * reps):
                d = [0] * dim
                d[rng.randrange(dim)] = rng.randint(4, 7)
                d[rng.randrange(dim)] += rng.randint(0, 2)
                out.append(B.mk(rng, fam, dim, rng.choice([6, 8, 9]) if dim == 2 and fam != "FS" else rng.choice([3, 5, 6]), d=d, backend=rng.choice(["C++", "C++", "Python"]) if fam != "Sin" else "C++", api="mtfc", npts=2))
    # every order of the activations' derivatives that has its own formula, alone and spread over the variables
    for fam in ("Sigmoid", "Tanh", "Swish", "ReLU", "Sin"):
        for n in range(3, 9):
            for dim in (2, 3):
                for _ in range(3 * reps):
                    d = [0] * dim
                    for _k in range(n):
                        d[rng.randrange(dim) if rng.random() < 0.7 else 0] += 1
                    out.append(B.mk(rng, fam, dim, rng.choice([2, 3]), d=d, backend="C++", api="mtfc", npts=rng.choice([1, 2]), tries=120))
                    if _ == 0 and n == rng.randint(3, 5) and (r.thorough or n == 3):
                        out.append(B.mk(rng, fam, dim, 2, d=d, backend="Python", api="mtfc", npts=1, tries=120))
    return [c for c in out if c]


def run(r):
    r.model("Odometer", "OdometerDeep.cfg" if r.thorough else "Odometer.cfg")
    r.build()
    cs = cases(r)
    r.nontrivial |= {B.key(c) for c in cs}
    r.validate(r.drive("basis", cs), "TraceBasis", chunk=300)
    return r.finish(RULE)


if __name__ == "__main__":
    main("C02", run)
