"""Constrained-expression problems and histories, with exact arithmetic of their own only to keep the inputs well posed."""
from fractions import Fraction as F

PR = (46337, 46327)


def mono(t, e):
    c, a = F(*t["c"]), F(*t["a"])
    if t["k"] == "pt":
        if e < t["o"]:
            return F(0)
        f = F(1)
        for k in range(t["o"]):
            f *= e - k
        return c * f * a ** (e - t["o"])
    return c * (F(*t["b"]) ** (e + 1) - a ** (e + 1)) / (e + 1)


def det(A):
    if not A:
        return F(1)
    return sum((-1) ** c * A[0][c] * det([r[:c] + r[c + 1:] for r in A[1:]]) for c in range(len(A)))


def smat(v, C, s):
    return [[sum(F(n, d) * sum(mono(t, (a, b)[v - 1]) for t in f) for a, b, n, d in p) for p in s] for f in C]


def good(v, C, s):
    """Regular support matrix, also modulo the two primes, of moderate size."""
    S = smat(v, C, s)
    if any(q.denominator % p == 0 for r in S for q in r for p in PR):
        return False
    d = det(S)
    return d != 0 and all(d.numerator % p and d.denominator % p for p in PR)


def fr(rng, lo=-3, hi=3, dens=(1, 1, 1, 2, 3)):
    d = rng.choice(dens)
    q = F(rng.randint(lo * d, hi * d), d)
    return [q.numerator, q.denominator]


def nz(rng, **k):
    while True:
        q = fr(rng, **k)
        if q[0]:
            return q


def functional(rng, points=False, maxo=3):
    r = rng.random()
    T = lambda **k: dict(dict(k="pt", c=[1, 1], o=0, a=[0, 1], b=[0, 1]), **k)
    if r < 0.3:
        return [T(a=fr(rng))]
    if r < 0.55:
        return [T(a=fr(rng), o=rng.randint(1, maxo))]
    if r < 0.7 and not points:
        a, b = fr(rng), fr(rng)
        if a == b:
            b = [b[0] + b[1], b[1]]
        return [T(k="int", a=a, b=b)]
    if r < 0.85:
        return [T(a=fr(rng), o=rng.choice([0, 0, 1])), T(a=fr(rng), c=nz(rng), o=rng.choice([0, 0, 1]))]
    n = rng.randint(2, 3)
    out = [T(a=fr(rng), c=nz(rng), o=rng.randint(0, 2)) for _ in range(n)]
    if not points and rng.random() < 0.5:
        out.append(T(k="int", a=fr(rng, lo=-2, hi=0), b=fr(rng, lo=1, hi=3), c=nz(rng)))
    return out


def support(rng, v, maxdeg=3):
    one = lambda e, q: [e, 0] + q if v == 1 else [0, e] + q
    r = rng.random()
    if r < 0.7:
        return [one(rng.randint(0, maxdeg), [1, 1] if r < 0.5 else nz(rng))]
    return [one(e, nz(rng)) for e in rng.sample(range(maxdeg + 1), 2)]


def data(rng, v, maxdeg=3):
    """A kappa: polynomial in the other variable."""
    k = rng.choice([0, 1, 1, 2])
    return [([0, e] if v == 1 else [e, 0]) + nz(rng, lo=-5, hi=5) for e in sorted(rng.sample(range(maxdeg + 1), k))]


def structured(rng, v, n):
    """A textbook problem: its support matrix is triangular, diagonal, a permutation, block-wise or Vandermonde."""
    T = lambda **k: [dict(dict(k="pt", c=[1, 1], o=0, a=[0, 1], b=[0, 1]), **k)]
    one = lambda e, q: [e, 0] + q if v == 1 else [0, e] + q
    mons = [[one(e, [1, 1])] for e in range(n)]
    pts = []
    small = rng.random() < 0.5
    while len(pts) < n:
        q = [rng.choice([0, 0, 1, 1, -1, 2]), 1] if small else fr(rng)
        if q not in pts:
            pts.append(q)
    k = rng.choice(["taylor", "taylor", "taylor0", "values", "newton", "hermite"])
    if k == "taylor":
        a = rng.choice([nz(rng), [1, 1]])
        C, s = [T(a=a, o=o) for o in range(n)], mons
    elif k == "taylor0":
        C, s = [T(o=o) for o in range(n)], mons
    elif k == "values":
        C, s = [T(a=a) for a in pts], mons
    elif k == "newton":
        C, s, poly = [T(a=a) for a in pts], [], [F(1)]
        for a in pts:
            s.append([one(e, [q.numerator, q.denominator]) for e, q in enumerate(poly) if q])
            poly = [(poly[i - 1] if i else F(0)) - F(*a) * (poly[i] if i < len(poly) else F(0)) for i in range(len(poly) + 1)]
    else:
        C, s = [T(a=pts[j // 2], o=j % 2) for j in range(n)], mons
    r = rng.random()
    if r < 0.2:
        C = C[::-1]
    elif r < 0.4:
        s = s[::-1]
    elif r < 0.55:
        rng.shuffle(C)
    return C, s


def problem(rng, v, n, points=False, maxdeg=3):
    for _ in range(20):
        if n > maxdeg + 1 or rng.random() > 0.4:
            break
        C, s = structured(rng, v, n)
        if good(v, C, s):
            return C, s
    for _ in range(2000):
        C = [functional(rng, points) for _ in range(n)]
        s = [support(rng, v, maxdeg) for _ in range(n)]
        if good(v, C, s):
            return C, s
    raise RuntimeError


def newC(rng, v, s, points=False):
    for _ in range(3000):
        C = [functional(rng, points) for _ in range(len(s))]
        if good(v, C, s):
            return C
    return None


def newS(rng, v, C, maxdeg=3):
    for _ in range(3000):
        s = [support(rng, v, maxdeg) for _ in range(len(C))]
        if good(v, C, s):
            return s
    return None


def freeG(rng, dx, dy):
    ts = [[a, b] + nz(rng, lo=-4, hi=4) for a in range(dx + 1) for b in range(dy + 1) if rng.random() < 0.6]
    return ts or [[1, 1, 1, 1]]


def inverse(A):
    n = len(A)
    M = [list(r) + [F(i == j) for j in range(n)] for i, r in enumerate(A)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c])
        M[c], M[p] = M[p], M[c]
        M[c] = [q / M[c][c] for q in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                M[r] = [a - M[r][c] * b for a, b in zip(M[r], M[c])]
    return [r[n:] for r in M]


def off(rng, v, C, s):
    """A polynomial on which all the functionals but one vanish (a switching function), or None when its numbers get large."""
    k = rng.randrange(len(C))
    A = inverse(smat(v, C, s))
    c = F(*nz(rng))
    d = {}
    for j, p in enumerate(s):
        for a, b, n, q in p:
            d[a, b] = d.get((a, b), F(0)) + c * A[j][k] * F(n, q)
    out = [[a, b, q.numerator, q.denominator] for (a, b), q in sorted(d.items()) if q]
    return out if out and all(abs(t[2]) < 40000 and t[3] < 40000 for t in out) else None


FREE = dict(m="free", c=[1, 1], p=[])


def values(rng, kind):
    """One problem (or a nested pair), every item read once."""
    v = rng.choice([1, 2])
    n = rng.choice([1, 2, 2, 3, 3, 4, 4]) if kind != "nested" else rng.choice([1, 2, 2])
    points = kind == "points" or (kind == "nested" and rng.random() < 0.4)
    C, s = problem(rng, v, n, points)
    case = dict(v=[v, 3 - v], G=freeG(rng, 3, 3), tuple=rng.random() < 0.3, flip=rng.random() < 0.2, ops=[])
    if kind == "pi":
        case["pi"] = v
    elif kind in ("cos", "exp"):
        case["emb"] = kind
    elif kind == "sym":
        case["sym"] = True
    elif kind == "pip":
        case["pip"] = rng.choice([[3, 1], [22, 7], [5, 2]])
    case["decides"] = points
    K = [data(rng, v) for _ in range(n)]
    ops = case["ops"]
    ops.append(dict(i=0, op="new", v=v, C=C, K=K, s=s, g=FREE))
    items = ["S", "alpha", "phi", "rho", "ce"]
    rng.shuffle(items)
    ops += [dict(i=0, op="read", n=m) for m in items[: rng.randint(1, 5)]]
    if kind == "points":
        ops.append(dict(i=0, op="check"))
        r = rng.random()
        p = off(rng, v, C, s) if r < 0.6 else None
        if p is None:
            p = [[rng.randint(0, 2), rng.randint(0, 2), 1, 1]] if r < 0.9 else []
        ops.append(dict(i=0, op="set", n="ce", g=dict(m="own", c=[1, 1], p=p)))
        ops.append(dict(i=0, op="check"))
    ops.append(dict(i=0, op="read", n="ce"))
    if kind == "nested":
        n2 = rng.choice([1, 1, 2])
        C2, s2 = problem(rng, 3 - v, n2, points or rng.random() < 0.5)
        ops.append(dict(i=1, op="new", v=3 - v, C=C2, K=[data(rng, 3 - v) for _ in range(n2)], s=s2, g=dict(m="other", c=[1, 1], p=[])))
        ops += [dict(i=1, op="read", n=m) for m in ("rho", "ce")]
        if points:
            ops.append(dict(i=0, op="set", n="ce", g=dict(m="other", c=[1, 1], p=[])))
            ops.append(dict(i=0, op="check"))
            ops.append(dict(i=1, op="check"))
    return case


def history(rng, beh):
    """Concretise a behaviour of CeMachine: two solvers, in the variables x and y."""
    v = [1, 2] if rng.random() < 0.5 else [2, 1]
    if rng.random() < 0.4:
        v[1] = v[0]
    points = rng.random() < 0.6
    case = dict(v=v, G=freeG(rng, 2, 2), tuple=rng.random() < 0.3, decides=points, ops=[])
    sol, ops = [], case["ops"]
    for i in range(2):
        n = rng.choice([1, 1, 2, 2])
        C, s = problem(rng, v[i], n, points, 2)
        K = [data(rng, v[i], 2) for _ in range(n)]
        sol.append(dict(C=C, s=s, K=K))
        ops.append(dict(i=i, op="new", v=v[i], C=C, K=K, s=s, g=FREE))
    small = lambda: [[rng.randint(0, 2), rng.randint(0, 2)] + nz(rng)] if rng.random() < 0.7 else []
    for e in beh:
        i = 0 if rng.random() < 0.7 else 1
        q = sol[i]
        if e["op"] != "set":
            if e["op"] == "check" and not points:
                e = dict(op="read", n="ce")
            ops.append(dict(i=i, op=e["op"], n=e["n"]))
            continue
        n = e["n"]
        if n == "C":
            C = newC(rng, v[i], q["s"], points)
            if C is None:
                continue
            if rng.random() < 0.25:  # another number of constraints: everything is replaced
                m = rng.choice([1, 2, 3])
                C, s = problem(rng, v[i], m, points, 2)
                K = [data(rng, v[i], 2) for _ in range(m)]
                q.update(s=s, K=K)
                rest = [dict(i=i, op="set", n="s", s=s), dict(i=i, op="set", n="K", K=K), dict(i=i, op="set", n="C", v=v[i], C=C)]
                rng.shuffle(rest)
                ops += rest
                q["C"] = C
                continue
            q["C"] = C
            ops.append(dict(i=i, op="set", n="C", v=v[i], C=C))
        elif n == "s":
            s = newS(rng, v[i], q["C"], 2)
            if s is None:
                continue
            q["s"] = s
            ops.append(dict(i=i, op="set", n="s", s=s))
        elif n == "K":
            q["K"] = [data(rng, v[i], 2) for _ in q["C"]]
            ops.append(dict(i=i, op="set", n="K", K=q["K"]))
        elif n == "g":
            r = rng.random()
            d = FREE if r < 0.25 else dict(m="free", c=nz(rng), p=small()) if r < 0.6 else dict(m="none", c=[0, 1], p=freeG(rng, 2, 2)) if r < 0.8 else dict(m="other", c=[1, 1], p=[])
            ops.append(dict(i=i, op="set", n="g", g=d))
        elif n == "phi":
            ops.append(dict(i=i, op="set", n="phi", s=[support(rng, v[i], 2) for _ in q["C"]]))
        elif n == "ce":
            r = rng.random()
            p = off(rng, v[i], q["C"], q["s"]) if r < 0.25 else None
            d = dict(m="own", c=[1, 1], p=p or small()) if r < 0.4 else dict(m="other", c=[1, 1], p=[]) if r < 0.7 else dict(m="free", c=nz(rng), p=small())
            ops.append(dict(i=i, op="set", n="ce", g=d))
    for i in range(2):
        ops.append(dict(i=i, op="read", n="ce"))
    return case


NAMES = [["x", "y"], ["x1", "x"], ["x", "x1"], ["t", "tau"], ["z", "e"], ["a_1", "a"], ["n", "np1"]]
UNIT = ("cos", "sin")


def printed(rng, kind):
    """A problem (or nested pair) with point constraints whose expression is printed and evaluated."""
    v = rng.choice([1, 2])
    n = rng.choice([1, 2, 2, 3])
    C, s = problem(rng, v, n, True)
    case = dict(v=[v, 3 - v], G=freeG(rng, 3, 3), tuple=False, flip=rng.random() < 0.3, decides=False, vars=rng.choice(NAMES), fname=rng.choice(["g", "g", "u0", "gfree"]), ops=[])
    case["via"] = rng.choice(["doprint", "print_type"])
    case["vec"] = rng.random() < 0.5
    if kind == "pi":
        case["pi"] = v
    elif kind == "sym":
        case["sym"] = True
    elif kind not in ("plain", "nested"):
        case["emb"] = kind
    K = [data(rng, v) for _ in range(n)]
    case["ops"].append(dict(i=0, op="new", v=v, C=C, K=K, s=s, g=FREE))
    lo, hi = (0, 1) if kind in ("sqrt", "exp") else (-1, 1)
    def coord(k):
        if k != v and kind in EMBS:
            return rng.choice([[1, 2], [1, 1], [1, 4], [3, 4]] + ([[0, 1], [-1, 2]] if kind in UNIT + ("log", "tan", "atan", "sinh") else []))
        return rng.choice([[0, 1], [1, 1], [-1, 1], [2, 1], [1, 2], [-3, 2]])
    pts = lambda: [[coord(1), coord(2)] for _ in range(rng.choice([1, 2, 2, 3]))]
    # derivatives and values of the expression are printed as well, along variables in which it is a polynomial
    vs = [3 - v] if kind == "pi" else [1, 2] if kind in ("plain", "nested", "sym") else [v]

    def steps():
        if case["via"] != "doprint" or rng.random() < 0.4:
            return []
        out = [dict(k="d", v=rng.choice(vs), o=rng.randint(1, 2), a=[0, 1], lazy=False) for _ in range(rng.choice([0, 1, 1, 2]))]
        if rng.random() < 0.5:
            out.append(dict(k="at", v=rng.choice(vs), o=0, a=fr(rng), lazy=False))
        if out and rng.random() < 0.5:
            out[-1]["lazy"] = True
        return out
    case["ops"].append(dict(i=0, op="print", pts=pts(), steps=steps()))
    if kind == "nested":
        n2 = rng.choice([1, 1, 2])
        C2, s2 = problem(rng, 3 - v, n2, True)
        case["ops"].append(dict(i=1, op="new", v=3 - v, C=C2, K=[data(rng, 3 - v) for _ in range(n2)], s=s2, g=dict(m="other", c=[1, 1], p=[])))
        case["ops"].append(dict(i=1, op="print", pts=pts(), steps=steps()))
    return case


EMBS = ("cos", "exp", "sqrt", "log", "sin", "tan", "atan", "sinh")
