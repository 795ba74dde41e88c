"""Least-squares problems with small integers; Fractions only find the common denominator of the solution."""
from fractions import Fraction as F

SHAPES_R = [[], [1], [2], [3], [1, 2], [2, 1], [2, 2], [1, 1]]
KEYS = ["b", "a", "xi2", "xi1", "lam", "0"]


def layout(rng, n_max=4):
    st = rng.choice(["array", "dict", "robust", "robust"])
    if st == "array":
        return st, ["x"], [[rng.randint(1, n_max)]]
    keys, shapes, tot = [], [], 0
    for k in rng.sample(KEYS, rng.choice([1, 2, 2, 3])):
        s = rng.choice(SHAPES_R) if st == "robust" else [rng.randint(1, 2)]
        z = 1
        for d in s:
            z *= d
        if tot + z > n_max:
            continue
        keys.append(k)
        shapes.append(s)
        tot += z
    if not keys:
        return layout(rng, n_max)
    return st, keys, shapes


def size(shapes):
    t = 0
    for s in shapes:
        z = 1
        for d in s:
            z *= d
        t += z
    return t


def solve(M, b):
    """Gauss: (solution with free variables zero or None, rank, null basis)."""
    m, n = len(M), len(M[0])
    R = [[F(v) for v in M[r]] + [F(b[r])] for r in range(m)]
    piv, r = [], 0
    for c in range(n):
        p = next((k for k in range(r, m) if R[k][c]), None)
        if p is None:
            continue
        R[r], R[p] = R[p], R[r]
        R[r] = [v / R[r][c] for v in R[r]]
        for k in range(m):
            if k != r and R[k][c]:
                R[k] = [x - R[k][c] * y for x, y in zip(R[k], R[r])]
        piv.append(c)
        r += 1
    x = [F(0)] * n
    for k, c in enumerate(piv):
        x[c] = R[k][n]
    null = []
    for c in range(n):
        if c not in piv:
            v = [F(0)] * n
            v[c] = F(1)
            for k, pc in enumerate(piv):
                v[pc] = -R[k][c]
            null.append(v)
    return x, r, null


def lcm(xs):
    from math import gcd
    l = 1
    for x in xs:
        l = l * x // gcd(l, x)
    return l


def minnorm(J, r0):
    """Step d of least norm minimising |J d + r0|, with an integer basis of the null space."""
    m, n = len(J), len(J[0])
    G = [[sum(J[k][a] * J[k][b] for k in range(m)) for b in range(n)] for a in range(n)]
    h = [-sum(J[k][a] * r0[k] for k in range(m)) for a in range(n)]
    x, r, null = solve(G, h)
    if null:  # subtract the projection on the null space
        NN = [[sum(u * v for u, v in zip(a, b)) for b in null] for a in null]
        y, _, _ = solve(NN, [sum(u * v for u, v in zip(a, x)) for a in null])
        x = [x[k] - sum(y[z] * null[z][k] for z in range(len(null))) for k in range(n)]
    ints = []
    for v in null:
        l = lcm([q.denominator for q in v])
        ints.append([int(q * l) for q in v])
    return x, ints


def eff(case, run):
    d = dict(run["vals"])
    for r in "wbc":
        if r not in case["roles"] or case["roles"].index(r) + 1 in case["cnums"]:
            d[r] = case["vals"][r]
    return d


def args(rng, case, m):
    roles = rng.sample(["w", "b", "c"], rng.choice([0, 1, 2, 2, 3, 3]))
    case["roles"] = roles
    nums = list(range(1, len(roles) + 1))
    case["cnums"] = rng.sample(nums, rng.randint(0, len(nums))) if rng.random() < 0.65 else []
    case["cform"] = rng.choice(["arr", "dict", "tuple", "tfc"])


def common(rng, fn):
    case = dict(fn=fn, jaxin=rng.random() < 0.8, pairs=rng.random() < 0.5, method=rng.choice([None, "pinv", "lstsq"]), timer=rng.random() < 0.25,
                timerType=rng.choice([None, "process_time", "perf_counter", "time", "monotonic"]), Ai=[], q=1, f=[0, 1], tol=[0, 0], mx=50, cond=-1,
                body=False, slack=False, print=False, end=None, default=True)
    case["struct"], case["keys"], case["shapes"] = layout(rng)
    if case["struct"] == "robust" or case["struct"] == "dict":
        case["jaxin"] = True
    case["resorder"] = rng.sample(range(len(case["keys"])), len(case["keys"]))
    return case


def linear(rng, fn):
    for _ in range(500):
        case = common(rng, fn)
        n = size(case["shapes"])
        m = n + rng.choice([0, 0, 1, 2, 3])
        if rng.random() < 0.15:
            m = max(1, n - 1)
        case["cplx"] = rng.random() < 0.15
        mat = lambda: [[rng.randint(-3, 3) for _ in range(n)] for _ in range(m)]
        case["A"] = mat()
        if case["cplx"]:
            case["Ai"] = mat()
        elif n > 1 and rng.random() < 0.25:  # rank deficient
            a, b = rng.sample(range(n), 2)
            for r in case["A"]:
                r[a] = rng.choice([1]) * r[b]
        elif rng.random() < 0.2:  # badly scaled unknowns: nothing small may be taken for zero
            sc = [rng.choice([1, 500, 20000]) for _ in range(n)]
            case["A"] = [[v * z for v, z in zip(row, sc)] for row in unimodular(rng, n, rng.random() < 0.5)]
            m = n
        args(rng, case, m)
        case["kap"] = rng.choice([[1, 1], [1, 1], [2, 1], [-1, 1], [1, 2]])
        case["userJ"] = case["kap"] != [1, 1] or rng.random() < 0.3
        vals = lambda: dict(w=[rng.choice([1, 1, 2, -1, 3]) for _ in range(m)], b=[rng.randint(-9, 9) for _ in range(m)], c=[rng.randint(-5, 5) for _ in range(m)])
        case["vals"] = vals()
        case["runs"] = []
        ok = True
        for _ in range(1 if fn == "LS" else rng.choice([1, 2, 3])):
            x0 = [rng.randint(-4, 4) for _ in range(n)] if rng.random() < 0.6 else [0] * n
            x0i = [rng.randint(-4, 4) for _ in range(n)] if case["cplx"] else [0] * n
            run = dict(vals=vals() if fn == "LsClass" else case["vals"], x0=x0, x0i=x0i)
            e = eff(case, run)
            if case["cplx"]:
                A = [a + [-v for v in ai] for a, ai in zip(case["A"], case["Ai"])] + [ai + a for a, ai in zip(case["A"], case["Ai"])]
                w, bc, x = e["w"] * 2, [p + q for p, q in zip(e["b"], e["c"])] + [0] * m, x0 + x0i
            else:
                A, w, bc, x = case["A"], e["w"], [p + q for p, q in zip(e["b"], e["c"])], x0
            if fn == "LS":
                x = [0] * len(x)
            k = F(*case["kap"])
            J = [[k * w[r] * v for v in A[r]] for r in range(len(A))]
            r0 = [w[r] * sum(p * q for p, q in zip(A[r], x)) - bc[r] for r in range(len(A))]
            d, null = minnorm(J, r0)
            den = lcm([q.denominator for q in d])
            if den > 200000 or den % 46337 == 0 or den % 46327 == 0 or any(abs(v) > 60 for z in null for v in z):
                ok = False
                break
            run["den"], run["null"] = den, null
            case["runs"].append(run)
        if ok:
            return case
    raise RuntimeError


def unimodular(rng, n, mix):
    A = [[0] * n for _ in range(n)]
    for r, c in enumerate(rng.sample(range(n), n)):
        A[r][c] = rng.choice([1, -1])
    if mix:
        for _ in range(2 if n > 1 else 0):
            a, b = rng.sample(range(n), 2)
            s = rng.choice([1, -1])
            A[a] = [p + s * q for p, q in zip(A[a], A[b])]
    return A


def nonlinear(rng, fn):
    for _ in range(2000):
        case = common(rng, fn)
        n = size(case["shapes"])
        q = case["q"] = rng.choice([1, 1, 2, 2])
        mix = rng.random() < 0.5
        case["cplx"] = q == 1 and rng.random() < 0.12
        if case["cplx"]:
            mix = False
        A = unimodular(rng, n, mix)
        m = n
        dup = rng.random() < 0.3
        if dup:
            A += [list(r) for r in rng.sample(A, rng.randint(1, n))]
            m = len(A)
        zero = rng.random() < 0.3
        if zero:
            A.append([0] * n)
            m += 1
        if case["cplx"]:
            # unit entries, some of them imaginary
            Ai = [[0] * n for _ in range(m)]
            for r in range(m):
                if rng.random() < 0.5:
                    A[r], Ai[r] = Ai[r], A[r]
            case["Ai"] = Ai
        scaled = q == 1 and not case["cplx"] and n > 1 and rng.random() < 0.6
        if scaled:   # badly scaled unknowns: no singular value may be taken for zero
            sc = [1, 2048] + [rng.choice([1, 128, 2048]) for _ in range(n - 2)]
            rng.shuffle(sc)
            for row in A:
                row[:] = [v * z for v, z in zip(row, sc)]
        case["A"] = A
        args(rng, case, m)
        tab = {1: {(1, 1): [0, 1], (2, 1): [1, 2], (1, 2): [-1, 1], (-1, 1): [2, 1]}, 2: {(1, 1): [1, 2], (1, 2): [0, 1], (1, 4): [-1, 1], (-1, 2): [2, 1]}}[q]
        k = rng.choice(list(tab) + [(1, 1)] * 2 + ([(2, 1)] * 2 if q == 1 else []))
        case["kap"], case["f"] = list(k), tab[k]
        case["userJ"] = k != (1, 1) or rng.random() < 0.25
        f = case["f"]
        case["default"] = not scaled and f == [0, 1] and q == 1 and rng.random() < 0.35
        while True:
            case["tol"] = [rng.randint(1, 60), rng.randint(3, 7)]
            if case["tol"][0] % 3 and case["tol"][0] < 3 * 2 ** case["tol"][1]:
                break
        case["mx"] = rng.choice([0, 1, 2, 3, 5]) if f in ([2, 1],) else rng.choice([0, 1, 2, 4, 6, 9])
        if case["default"]:
            case["tol"], case["mx"] = [0, 0], 50
        r = rng.random()
        if r < 0.12 and not case["default"]:
            case["cond"] = rng.randint(0, 5)
            case["body"] = rng.random() < 0.5
        elif r < 0.35:
            case["print"] = True
            case["end"] = rng.choice([None, "\n", ";", " | "])
            case["timer"] = rng.random() < 0.2
        vals = lambda: dict(w=[rng.choice([1, 1, 2, -1, 3]) for _ in range(m)], b=[rng.randint(-4, 4) for _ in range(n)],
                            c=[rng.choice([0, 1, -2]) if not any(case["A"][k]) and not (case["Ai"] and any(case["Ai"][k])) else 0 for k in range(m)])
        case["vals"] = vals()
        case["runs"] = []
        ok = True
        for _ in range(1 if fn == "NLLS" else rng.choice([1, 2, 3, 4])):
            run = dict(vals=vals() if fn == "NllsClass" else case["vals"], den=1, null=[])
            e = eff(case, run)
            if rng.random() < 0.12:
                err = [0] * n
            else:
                err = [rng.choice([-6, -4, -3, -2, -1, 1, 2, 3, 5]) for _ in range(n)]
            run["x0"] = [a + b for a, b in zip(e["b"], err)]
            run["x0i"] = [0] * n
            if case["cplx"]:
                for j in range(n):
                    if rng.random() < 0.5:
                        run["x0"][j], run["x0i"][j] = e["b"][j], err[j]
            if q == 2:
                u = [sum(a * b for a, b in zip(r, err)) for r in A[:n]]
                if (mix and any(err) and not all(u)) or (not all(u) and case["method"] == "lstsq"):
                    ok = False
            # with f = 0 the residual after one step is rounding noise: the default tolerance may need a second step
            case["slack"] = case["slack"] or (case["default"] and not any(e["c"]))
            case["runs"].append(run)
        if case["default"] and len({any(eff(case, r)["c"]) for r in case["runs"]}) > 1:
            ok = False
        if ok and case["cplx"] and case["body"]:
            ok = False
        if ok:
            return case
    raise RuntimeError


def scaled_qr(rng):
    """A x = B for ScaledQrLs: no zero column, full column rank, one or several right-hand sides."""
    while True:
        n = rng.choice([1, 2, 2, 3, 4])
        m = n + rng.choice([0, 0, 1, 2, 4])
        A = [[rng.randint(-4, 4) * (rng.choice([1, 1, 100]) if j == 0 else 1) for j in range(n)] for _ in range(m)]
        flat = rng.random() < 0.4
        case = dict(fn="Qr", A=A, flat=flat, jaxin=rng.random() < 0.7, runs=[])
        if solve(A, [0] * m)[1] < n:
            continue
        ok = True
        for _ in range(1 if flat else rng.choice([1, 2, 3, n])):
            b = [rng.randint(-9, 9) for _ in range(m)]
            d, _ = minnorm(A, [-v for v in b])
            den = lcm([q.denominator for q in d])
            ok = ok and den <= 200000 and den % 46337 and den % 46327
            case["runs"].append(dict(vals=dict(w=[1] * m, b=b, c=[0] * m), den=den))
        if ok:
            return case
