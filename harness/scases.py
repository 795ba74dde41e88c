"""Differential equations with a known polynomial solution and a trivial kernel (checked with exact linear algebra)."""
from fractions import Fraction as F

from harness.lcases import solve as gauss


def poly(rng, dim, deg, c=3):
    out = []
    for a in range(deg + 1):
        for b in range(deg + 1 - a if dim == 2 else 1):
            v = rng.randint(-c, c)
            if v and (dim == 1 or rng.random() < 0.6):
                out.append([a, b, v])
    return out or [[1, 0, 1]]


def fall(n, k):
    r = 1
    for t in range(k):
        r *= n - t
    return r


def unique(case, top):
    """No nonzero polynomials of (total) degree <= top meet the homogeneous linear equations and conditions."""
    dim, nu = case["dim"], len(case["sol"])
    mons = [(u, a, b) for u in range(nu) for a in range(top + 1) for b in range(top + 1 - a if dim == 2 else 1)]
    rows = {}
    for col, (u, a, b) in enumerate(mons):
        for n, eq in enumerate(case["eqs"]):
            for t in eq:
                if len(t["f"]) != 1 or t["f"][0][0] != u:
                    continue
                _, i, j = t["f"][0]
                if a < i or b < j:
                    continue
                key = ("e", n, a - i + t["e"][0], b - j + t["e"][1])
                rows.setdefault(key, {})
                rows[key][col] = rows[key].get(col, 0) + F(t["c"] * fall(a, i) * fall(b, j))
        for n, k in enumerate(case["cons"]):
            if k["u"] != u:
                continue
            p, q = (a, b) if k["v"] == 1 else (b, a)
            for t in k["t"]:
                if p < t["o"]:
                    continue
                key = ("c", n, q)
                rows.setdefault(key, {})
                rows[key][col] = rows[key].get(col, 0) + F(t["c"] * fall(p, t["o"])) * F(*t["a"]) ** (p - t["o"])
    M = [[r.get(c, F(0)) for c in range(len(mons))] for r in rows.values()]
    return gauss(M, [0] * len(M))[1] == len(mons)


def regular(conds, supp):
    """The support matrix of the conditions is invertible."""
    M = [[sum(F(t["c"] * fall(e, t["o"])) * F(*t["a"]) ** (e - t["o"]) for t in k["t"] if e >= t["o"]) for e in supp] for k in conds]
    return gauss(M, [0] * len(M))[1] == len(supp)


def cond(u, v, *ts):
    return dict(u=u, v=v, t=[dict(c=c, o=o, a=a) for c, o, a in ts])


def eq(*ts):
    return [dict(c=c, e=list(e), f=[list(f) for f in fs]) for c, e, fs in ts]


def two_sided(rng, u, v, a, b):
    A = [(1, 0, a)]
    B = [(1, 0, b)]
    k = rng.randrange(6)
    if k == 0:
        A = [(1, 1, a)]
    elif k == 1:
        B = [(1, 1, b)]
    elif k == 2:
        B = [(1, 0, b), (-2, 0, a)]
    elif k == 3:
        A = [(1, 1, a), (2, 0, a)]
    r = [cond(u, v, *A), cond(u, v, *B)]
    rng.shuffle(r)
    return r


def mk(rng, kind):
    for _ in range(200):
        c = try_mk(rng, kind)
        if c:
            return c
    raise RuntimeError(kind)


def try_mk(rng, kind):
    dim = 2 if kind.startswith("pde") else 1
    a = rng.choice([[0, 1], [0, 1], [-1, 1], [1, 1], [-1, 2]])
    L = rng.choice([1, 1, 2])
    if kind.startswith("nl") or kind.startswith("pde"):
        L = 1
    if kind.startswith("nl") or kind == "pdenl":   # mild: Gauss-Newton has to converge from zero
        a = rng.choice([[0, 1], [-1, 2], [-1, 1]])
    b = [a[0] + L * a[1], a[1]]
    a2 = rng.choice([[0, 1], [0, 1], [-1, 2]])
    b2 = [a2[0] + a2[1], a2[1]]
    deg = rng.choice([2, 3] if kind.startswith("nl") else [2, 3, 4]) if dim == 1 else rng.choice([2, 3, 3])
    nz = lambda *z: rng.choice([t for t in z if t])
    r = lambda lo, hi: rng.randint(lo, hi)
    nu = 2 if kind in ("sys", "sysbvp", "nlsys") else 1
    small = 1 if kind.startswith("nl") else 3
    sol = [poly(rng, dim, deg, small) for _ in range(nu)]
    y = [0, 0, 0]
    d = lambda u, i=0, j=0: [[u, i, j]]
    z = (0, 0)
    end = rng.choice([a, a, b])
    eqs, cons = [], []
    if kind == "ode1":
        eqs = [eq((nz(1, 1, 2, -1), z, d(0, 1)), (r(-2, 2), (r(0, 1), 0), d(0)))]
        cons = [rng.choice([cond(0, 1, (1, 0, end)), cond(0, 1, (1, 0, a), (1, 0, b)), cond(0, 1, (2, 0, end))])]
    elif kind == "ivp2":
        eqs = [eq((1, z, d(0, 2)), (r(-2, 2), (r(0, 1), 0), d(0, 1)), (r(-2, 2), (r(0, 1), 0), d(0)))]
        cons = [cond(0, 1, (1, 0, end)), cond(0, 1, (1, 1, end))]
        rng.shuffle(cons)
    elif kind == "bvp":
        eqs = [eq((1, z, d(0, 2)), (r(-1, 1), z, d(0, 1)), (r(-1, 1), z, d(0)))]
        cons = two_sided(rng, 0, 1, a, b)
    elif kind == "ode3":
        eqs = [eq((1, z, d(0, 3)), (r(-1, 1), z, d(0, 1)))]
        cons = two_sided(rng, 0, 1, a, b) + [cond(0, 1, (1, rng.choice([1, 2]), end))]
    elif kind == "sys":
        eqs = [eq((1, z, d(0, 1)), (r(-2, 2), z, d(1)), (r(-1, 1), z, d(0))), eq((1, z, d(1, 1)), (r(-2, 2), (r(0, 1), 0), d(0)))]
        cons = [cond(0, 1, (1, 0, end)), cond(1, 1, (1, 0, rng.choice([a, b])))]
    elif kind == "sysbvp":
        eqs = [eq((1, z, d(0, 2)), (r(-1, 1), z, d(1))), eq((1, z, d(1, 2)), (r(-1, 1), z, d(0, 1)))]
        cons = two_sided(rng, 0, 1, a, b) + two_sided(rng, 1, 1, a, b)
    elif kind == "nl1":
        eqs = [eq((16, z, d(0, 1)), (nz(-1, 1), z, d(0) + d(0)))]
        cons = [cond(0, 1, (1, 0, end))]
    elif kind == "nl2":
        eqs = [eq((16, z, d(0, 2)), (nz(-1, 1), z, d(0) + d(0, 1)))]
        cons = [cond(0, 1, (1, 0, end)), cond(0, 1, (1, 1, end))]
    elif kind == "nlsys":
        eqs = [eq((16, z, d(0, 1)), (nz(-1, 1), z, d(0) + d(1))), eq((16, z, d(1, 1)), (nz(-1, 1), z, d(0)))]
        cons = [cond(0, 1, (1, 0, end)), cond(1, 1, (1, 0, end))]
    elif kind == "pdeheat":
        eqs = [eq((1, z, d(0, 0, 1)), (-r(1, 2), z, d(0, 2)), (r(-1, 1), z, d(0)))]
        cons = two_sided(rng, 0, 1, a, b) + [cond(0, 2, (1, 0, a2))]
    elif kind == "pdewave":
        eqs = [eq((1, z, d(0, 0, 2)), (-1, z, d(0, 2)))]
        cons = two_sided(rng, 0, 1, a, b) + [cond(0, 2, (1, 0, a2)), cond(0, 2, (1, 1, a2))]
    elif kind == "pdepoisson":
        eqs = [eq((1, z, d(0, 2)), (1, z, d(0, 0, 2)), (r(-1, 0), z, d(0)))]
        cons = [cond(0, 1, (1, 0, a)), cond(0, 1, (1, 0, b)), cond(0, 2, (1, 0, a2)), cond(0, 2, (1, 0, b2))]
    elif kind == "pdenl":
        eqs = [eq((16, z, d(0, 0, 1)), (1, z, d(0) + d(0, 1)), (-16, z, d(0, 2)))]
        cons = [cond(0, 1, (1, 0, a)), cond(0, 1, (1, 0, b)), cond(0, 2, (1, 0, a2))]
        sol = [poly(rng, dim, 2, 1)]
    elif kind == "pdeadv":
        eqs = [eq((1, z, d(0, 0, 1)), (r(1, 2), z, d(0, 1)))]
        cons = [cond(0, 1, (1, 0, a)), cond(0, 2, (1, 0, a2))]
    eqs = [[t for t in q if t["c"]] for q in eqs]
    supp, nC = [], None
    for u in range(nu):
        row = []
        for v in (1, 2):
            ks = [k for k in cons if k["u"] == u and k["v"] == v]
            s = list(range(len(ks)))
            if ks and not regular(ks, s):
                return None
            row.append(s)
        supp.append(row)
    nC = [len(supp[0][0]), len(supp[0][1])][:dim]
    m = deg + rng.choice([1, 2, 3, 3, 6, 9]) if dim == 1 else deg + rng.choice([0, 1, 2])
    m = max(m, max(nC) + 1)
    case = dict(dim=dim, sol=sol, eqs=eqs, cons=cons, deg=deg, m=m, N=m + rng.choice([4, 6, 9]), x0=[a, a2][:dim], xf=[b, b2][:dim], supp=supp, nC=nC)
    lin = dict(case)
    if kind.startswith("nl") or kind == "pdenl":
        lin["eqs"] = [[t for t in q if len(t["f"]) == 1] for q in eqs]
    if not unique(lin, m + (2 if dim == 2 else 0)):
        return None
    if dim == 1 and rng.random() < 0.2:
        case["nC"] = [list(range(nC[0]))]
    nonlin = kind.startswith("nl") or kind == "pdenl"
    py = rng.random() < 0.25
    D = 4 if dim == 1 else 2
    pts = []
    for _ in range(4):
        p = []
        for lo, hi in ((a, b), (a2, b2)):
            n, h = lo[0] * (D // lo[1]), hi[0] * (D // hi[1])
            p.append([rng.randint(n, h), D] if dim == 2 or not p else [0, 1])
        pts.append(p)
    const = py or rng.random() < 0.3
    case.update(kind=kind, basis=rng.choice(["CP", "LeP"]), backend="Python" if py else "C++", style=rng.choice(["print", "phi"]), rev=rng.random() < 0.5,
                robust=rng.random() < 0.5, const=const, closed=rng.random() < 0.5, solver=rng.choice(["NLLS", "NllsClass"] + ([] if nonlin else ["LS", "LsClass"] * 2)),
                method=rng.choice(["pinv", "lstsq"]), maxIter=50 if nonlin else rng.choice([5, 50]), pts=pts,
                look=rng.choice([[[0, 0]], [[0, 0], [1, 0]]] + ([[[0, 0], [0, 1]]] if dim == 2 else [])), seed=rng.randint(1, 10**6))
    return case


KINDS = ["ode1", "ivp2", "bvp", "ode3", "sys", "sysbvp", "nl1", "nl2", "nlsys", "pdeheat", "pdewave", "pdepoisson", "pdenl", "pdeadv"]
