"""Solves differential equations with a known polynomial solution the way a user of tfc does, and records the solution found.

Constrained expression from CeSolver (its printed code, or its switching functions used by hand), free function from utfc or
mtfc, residual with egrad, unknowns from LS, LsClass, NLLS or NllsClass.  See spec/TraceSolve.tla.
"""
from math import isfinite

import numpy as onp
import sympy as sp

PR = (46337, 46327)
X, Y = sp.symbols("x y")


def poly(ts):
    return sp.Add(*[sp.Integer(c) * X**a * Y**b for a, b, c in ts]) if ts else sp.Integer(0)


def terms(e):
    p = sp.Poly(sp.expand(e), X, Y)
    return [[int(a), int(b), int(c.p), int(c.q)] for (a, b), c in sorted(p.terms()) if c != 0]


def near(v, den, tol=1e-4):
    if not isfinite(v) or abs(v * den) > 1e12 or abs(v * den - round(v * den)) > tol:
        return False, [0, 0]
    return True, [round(v * den) % p for p in PR]


def setup(case):
    """Exact data of the problem (the specification checks them)."""
    sols = [poly(s) for s in case["sol"]]
    rhs = []
    for eq in case["eqs"]:
        e = 0
        for t in eq:
            w = sp.Integer(t["c"]) * X ** t["e"][0] * Y ** t["e"][1]
            for u, i, j in t["f"]:
                d = sols[u]
                d = sp.diff(d, X, i) if i else d
                d = sp.diff(d, Y, j) if j else d
                w = w * d
            e += w
        rhs.append(sp.expand(e))
    data = []
    for k in case["cons"]:
        z = (X, Y)[k["v"] - 1]
        e = 0
        for t in k["t"]:
            d = sols[k["u"]]
            d = sp.diff(d, z, t["o"]) if t["o"] else d
            e += sp.Integer(t["c"]) * d.subs(z, sp.Rational(*t["a"]))
        data.append(sp.expand(e))
    return sols, rhs, data


def functional(k):
    z = (X, Y)[k["v"] - 1]

    def f(u):
        r = []
        for t in k["t"]:
            d = sp.diff(u, z, t["o"]) if t["o"] else u
            r.append(sp.Integer(t["c"]) * d.subs(z, sp.Rational(*t["a"])))
        return sp.Add(*r)

    return f


def base(case):
    _, rhs, data = setup(case)
    return dict(id=case["id"], raised="", sol=[terms(poly(s)) for s in case["sol"]], eqs=case["eqs"], rhs=[terms(e) for e in rhs],
                cons=[dict(k, data=terms(d)) for k, d in zip(case["cons"], data)], obs=[], cobs=[])


def solve(case, ev):
    import jax
    import jax.numpy as np
    import tfc
    from tfc.utils import CeSolver, LS, LsClass, NLLS, NllsClass, TFCDict, TFCDictRobust, egrad
    from tfc.utils.CeSolver import TfcPrinter

    sols, rhs, data = setup(case)
    dim, nu = case["dim"], len(sols)
    lo = [float(sp.Rational(*q)) for q in case["x0"]]
    hi = [float(sp.Rational(*q)) for q in case["xf"]]
    if dim == 1:
        nC = case["nC"][0]
        t = tfc.utfc(case["N"], nC, case["m"], basis=case["basis"], x0=lo[0], xf=hi[0], backend=case["backend"])
        pts = [t.x]
    else:
        t = tfc.mtfc([case["N"]] * 2, case["nC"], case["m"], dim=2, basis=case["basis"], x0=lo, xf=hi, backend=case["backend"])
        pts = list(t.x)
    H = t.H
    names = ["y%d" % k for k in range(nu)]
    num = lambda a: np.asarray(a, dtype=float)
    arr = lambda f: (lambda *a: f(*[num(b) for b in a]))

    def freefun(xi):
        if dim == 1:
            return lambda a: np.dot(H(np.atleast_1d(num(a))), xi)

        def g(a, b):
            a, b = np.broadcast_arrays(np.atleast_1d(num(a)), np.atleast_1d(num(b)))
            return np.dot(H(a, b), xi)

        return g

    # constrained expressions: the constraints in one variable after the other
    gsym = sp.Function("g")
    exprs = []
    for u in range(nu):
        ks = [k for k in range(len(case["cons"])) if case["cons"][k]["u"] == u]
        vs = sorted({case["cons"][k]["v"] for k in ks}, reverse=case["rev"])
        free = gsym(X) if dim == 1 else gsym(X, Y)
        steps = []
        for v in vs:
            kk = [k for k in ks if case["cons"][k]["v"] == v]
            z = (X, Y)[v - 1]
            cs = CeSolver([functional(case["cons"][k]) for k in kk], [data[k] for k in kk], [z**i for i in case["supp"][u][v - 1]], free)
            steps.append((v, kk, [sp.lambdify(z, p, "numpy") for p in list(cs.phi)] if case["style"] == "phi" else None))
            free = cs.ce
        exprs.append((steps, compile(TfcPrinter().doprint(free), "printed", "eval")))
    npd = [sp.lambdify((X, Y), d, "numpy") for d in data]

    def ce(u):
        steps, code = exprs[u]
        if case["style"] == "print":
            def y(xi, *x):
                ns = {"np": np, "egrad": lambda f, j=0: arr(egrad(f, j)), "g": freefun(xi[names[u]] if nu > 1 else xi), "x": x[0]}
                if dim == 2:
                    ns["y"] = x[1]
                return eval(code, ns) + 0.0 * x[0]
            return y

        def wrap(y, step):
            v, kk, phi = step

            def apply(k, xi, x):
                s = 0.0
                for tt in case["cons"][k]["t"]:
                    f = y
                    for _ in range(tt["o"]):
                        f = egrad(f, v)
                    a = list(x)
                    a[v - 1] = float(sp.Rational(*tt["a"])) * np.ones_like(x[v - 1])
                    s = s + tt["c"] * f(xi, *a)
                return s

            def z(xi, *x):
                xy = (list(x) + [0.0])[:2]
                s = y(xi, *x)
                for p, k in zip(phi, kk):
                    s = s + p(x[v - 1]) * (npd[k](*xy) - apply(k, xi, x))
                return s

            return z

        y = (lambda xi, x: np.dot(H(x), xi[names[u]] if nu > 1 else xi)) if dim == 1 else (lambda xi, a, b: np.dot(H(a, b), xi[names[u]] if nu > 1 else xi))
        for st in steps:
            y = wrap(y, st)
        return y

    ys = [ce(u) for u in range(nu)]
    fr = [sp.lambdify((X, Y), e, "numpy") for e in rhs]

    def der(u, i, j):
        f = ys[u]
        for _ in range(i):
            f = egrad(f, 1)
        for _ in range(j):
            f = egrad(f, 2)
        return f

    def res(xi, *x):
        xy = (list(x) + [0.0])[:2]
        out = []
        for eq, f in zip(case["eqs"], fr):
            s = -f(*xy) * np.ones_like(x[0])
            for tt in eq:
                w = float(tt["c"]) * xy[0] ** tt["e"][0] * (xy[1] ** tt["e"][1] if tt["e"][1] else 1.0)
                for u, i, j in tt["f"]:
                    w = w * der(u, i, j)(xi, *x)
                s = s + w
            out.append(s)
        return out[0] if len(out) == 1 else np.hstack(out)

    nb = H(*pts).shape[1]
    if nu == 1:
        mk = lambda f: f(0)
    elif case["robust"]:
        mk = lambda f: TFCDictRobust({n: f(k) for k, n in enumerate(names)})
    else:
        mk = lambda f: TFCDict({n: f(k) for k, n in enumerate(names)})
    xi0 = mk(lambda k: np.zeros(nb))
    if case["const"]:
        args, kw, rf = tuple(pts), dict(constant_arg_nums=list(range(1, dim + 1))), res
    elif case["closed"]:
        args, kw, rf = (), {}, lambda xi: res(xi, *pts)
    else:
        args, kw, rf = tuple(pts), {}, res
    s = case["solver"]
    if s in ("LS", "LsClass"):
        kw["method"] = case["method"]
        if s == "LS":
            xi = LS(xi0, rf, *args, **kw)
        else:
            xi = LsClass(xi0, rf, *args, **kw).run(xi0, *(() if case["const"] else args))
    else:
        kw.update(method=case["method"], tol=1e-13, maxIter=case["maxIter"])
        if s == "NLLS":
            xi, _ = NLLS(xi0, rf, *args, **kw)
        else:
            xi, _ = NllsClass(xi0, rf, *args, **kw).run(xi0, *(() if case["const"] else args))
    # the solution at points of the domain that need not be collocation points
    P = [np.array([float(sp.Rational(*p[k])) for p in case["pts"]]) for k in range(dim)]
    for u in range(nu):
        for (i, j) in case["look"]:
            v = onp.asarray(der(u, i, j)(xi, *P), dtype=float)
            if v.shape != (len(case["pts"]),):
                raise ValueError("shape %s" % (v.shape,))
            for p, val in zip(case["pts"], v):
                den = max(q[1] for q in p) ** case["deg"]
                ok, r = near(float(val), den)
                ev["obs"].append(dict(u=u + 1, i=i, j=j, p=p, near=ok, v=r, den=[den % q for q in PR]))
    # the constraints hold whatever the unknowns are
    rs = onp.random.RandomState(case["seed"])
    xr = mk(lambda k: np.array(rs.randint(-3, 4, nb), dtype=float))
    for k, c in enumerate(case["cons"]):
        v = c["v"]
        tot = 0.0
        for tt in c["t"]:
            f = ys[c["u"]]
            for _ in range(tt["o"]):
                f = egrad(f, v)
            a = list(P)
            a[v - 1] = float(sp.Rational(*tt["a"])) * np.ones_like(P[0])
            tot = tot + tt["c"] * f(xr, *a)
        for p, val in zip(case["pts"][:2], onp.asarray(tot)):
            d = max([tt["a"][1] for tt in c["t"]] + [q[1] for q in p]) ** case["deg"]
            ok, r = near(float(val), d)
            ev["cobs"].append(dict(k=k + 1, p=p, near=ok, v=r, den=[d % q for q in PR]))


def execute(case):
    ev = base(case)
    try:
        solve(case, ev)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        import os
        if os.environ.get("SOLVE_DEBUG"):
            raise
        ev["raised"] = type(e).__name__ + ": " + str(e)[:120]
        ev["obs"], ev["cobs"] = [], []
    return [ev]


def crash_event(case, why):
    return dict(base(case), raised="process: " + why)
