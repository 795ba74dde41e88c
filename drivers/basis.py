"""Executes basis-matrix cases on the real code and projects the results (see spec/BasisMatrix.tla)."""
import math
from fractions import Fraction as Fr

import numpy as onp

PR = (46337, 46327)
LN2 = math.log(2.0)
UNIT = {"FS": math.pi / 6, "Sin": math.pi / 6, "Sigmoid": LN2, "Swish": LN2, "Tanh": LN2 / 2}
UNAME = {"Sigmoid": "ELMSigmoid", "Tanh": "ELMTanh", "Sin": "ELMSin", "Swish": "ELMSwish", "ReLU": "ELMReLU"}
TOL = 0.05
SQ3 = math.sqrt(3.0)


def res(n):
    return [n % PR[0], n % PR[1]]


def dec_int(v, scale):
    """v (float) -> [residue, residue, flag] of the integer nearest v*scale."""
    v = float(v)
    if not math.isfinite(v):
        return [0, 0, 1]
    q = Fr(v) * scale
    n = round(q)
    return res(n) + [0 if abs(q - n) <= TOL else 1]


def dec_trig(v, scale, dim):
    v = float(v)
    if not math.isfinite(v):
        return [0, 0, 1, 0, 0, 1]
    return dec_int(v, scale * 2 ** dim) + dec_int(v / SQ3, scale * 2 ** dim)


_A = onp.arange(-140000, 140001)
_AL = _A * LN2


def sig_der(n, k):
    """n-th derivative of the logistic function at k ln 2, exactly."""
    p = [Fr(0), Fr(1)]                       # polynomial in s; s' = s - s^2
    for _ in range(n):
        q = [Fr(0)] * (len(p) + 1)
        for i, a in enumerate(p):
            q[i] += i * a
            q[i + 1] -= i * a
        p = q
    s = Fr(2) ** k / (1 + Fr(2) ** k)
    return sum(a * s ** i for i, a in enumerate(p))


def swish_hint(c, i, j, nd, sc):
    """Where to look first for the pair (A, B) of a Swish entry; the specification decides whether it is the right pair."""
    u = Fr(c["b"][j])
    for k in range(c["dim"]):
        u += c["w"][k][j] * Fr(*c["pts"][i][k]) / Fr(*c["L"][k])
    if u.denominator != 1:
        return None
    u = int(u)
    if u >= 120:
        A = Fr(sc * u if nd == 0 else 0)
    elif u <= -120:
        A = Fr(0)
    else:
        A = sc * u * sig_der(nd, u)
    if A.denominator != 1:
        return None
    err = sc * math.factorial(nd) * 1.4427 ** (nd + 1) * (nd + 1) * max(1, min(abs(u), 120)) * 3e-14
    return int(A), min(0.05, max(1e-6, err))


def dec_swish(v, scale, unit, hint=None):
    """v = unit*(A ln2 + B)/scale: integer pairs (A, B) that explain v, as residues of unit*A and unit*B."""
    v = float(v)
    if not math.isfinite(v):
        return []
    u = float(unit)
    if u == 0.0:
        if abs(v) > 1e-9:
            return []
        return [[0, 0, 0, 0]]
    t = v * scale / u
    f = t - _AL
    b = onp.rint(f)
    ok = onp.nonzero(onp.abs(f - b) < 1e-6)[0]
    out = []
    pairs = [(int(_A[i]), int(b[i])) for i in ok]
    if hint is not None:
        h = t - hint[0] * LN2
        if abs(h - round(h)) < hint[1]:
            pairs.append((hint[0], round(h)))
    for A, B in pairs:
        ra, rb = [], []
        for p in PR:
            uu = (unit.numerator * pow(unit.denominator, -1, p)) % p
            ra.append(uu * A % p)
            rb.append(uu * B % p)
        out.append(ra + rb)
    return out


def decode_rows(c, H, rows):
    """Project the rows `rows` of the matrix H (2-D float array)."""
    fam, dim = c["fam"], c["dim"]
    obs = []
    d = [c["d"][k] + c["ops"].count(k + 1) for k in range(dim)]
    kept = None
    for i, r in enumerate(rows):
        sc = int(c["scale"][i])
        row = H[r]
        if fam in ("FS",):
            obs.append([dec_trig(v, sc, dim) for v in row])
        elif fam == "Sin":
            obs.append([dec_trig(v, sc, 1) for v in row])
        elif fam == "Swish":
            unit0 = Fr(1)
            for k in range(dim):
                unit0 *= (1 / Fr(*c["L"][k])) ** d[k]
            for t in c["mul"][i]:
                unit0 *= t
            if kept is None:
                kept = kept_columns(c)
            o = []
            for q, v in enumerate(row):
                unit = unit0
                j = kept[q] if q < len(kept) else 0
                for k in range(dim):
                    unit *= Fr(c["w"][k][j]) ** d[k]
                o.append(dec_swish(v, sc, unit, swish_hint(c, i, j, sum(d), sc)))
            obs.append(o)
        else:
            obs.append([dec_int(v, sc) for v in row])
    return obs


def kept_columns(c):
    """Only used to choose the unit in which a Swish entry is decoded; the specification recomputes it."""
    if c["full"]:
        return list(range(c["m"]))
    e = c["nC"][0]
    rem = set(range(max(0, e["v"][0]))) if e["k"] == "int" else set(e["v"])
    return [j for j in range(c["m"]) if j not in rem]


def event(c, shape=(0, 0), obs=(), raised="", rowfun=True, rows=0, dtype="float64", nfull=-1, nkept=-1):
    return {
        "id": c["id"], "fam": c["fam"], "dim": c["dim"], "m": c["m"],
        "nC": [{"k": e["k"], "v": e["v"]} for e in c["nC"]], "full": bool(c["full"]), "d": c["d"], "ops": c["ops"],
        "L": c["L"], "w": c["w"], "b": c["b"], "pts": c["pts"], "mul": c["mul"],
        "dirs": c.get("dirs", []), "sq": c.get("sq", 0), "inner": c.get("inner", []),
        "sc": [res(int(s)) for s in c["scale"]], "rows": rows, "shape": list(shape), "obs": list(obs),
        "raised": raised, "rowfun": bool(rowfun), "dtype": dtype, "wantdtype": c.get("wantdtype", "float64"),
        "nfull": nfull, "nkept": nkept,
        "how": {k: c.get(k, "") for k in ("api", "backend", "path", "x0", "acc", "ad", "reps", "wset")},
    }


def crash_event(c, why):
    return event(c, raised="process: " + why)


# --------------------------------------------------------------------------- construction
def nc_value(e, jnp):
    f = e.get("form", "list")
    if e["k"] == "int":
        return onp.int64(e["v"][0]) if f == "npint" else e["v"][0]
    if f == "list":
        return list(e["v"])
    if f == "tuple":
        return tuple(e["v"])
    if f == "jnp":
        return jnp.array(e["v"], dtype=jnp.int32)
    if f == "np":
        return onp.array(e["v"], dtype=onp.int64)
    if f == "np32":
        return onp.array(e["v"], dtype=onp.int32)
    if f == "npstride":
        return onp.array([x for v in e["v"] for x in (v, 0)], dtype=onp.int32)[::2]
    if f == "jnp64":
        return jnp.array(e["v"])
    raise ValueError(f)


def domain(c):
    u = 2 * math.pi if c["fam"] == "FS" else 1.0
    x0 = [float(v) for v in c["x0"]]
    xf = [x0[k] + float(Fr(*c["L"][k])) * u for k in range(c["dim"])]
    return x0, xf


def points(c, dtype=onp.float64):
    x0, _ = domain(c)
    if c["fam"] in ("LaP", "HoPpro", "HoPphy"):
        x0 = [0.0] * c["dim"]
    u = UNIT.get(c["fam"], 1.0)
    return [onp.array([x0[k] + float(Fr(*row[k])) * u for row in c["pts"]], dtype=dtype) for k in range(c["dim"])]


def weights(c):
    u = UNIT.get(c["fam"], 1.0)
    return onp.array(c["w"], dtype=float), onp.array(c["b"], dtype=float) * u


def build(c):
    """The object under test and a function d-> matrix evaluator f(*x) for it."""
    import jax.numpy as jnp
    import tfc

    x0, xf = domain(c)
    api = c["api"]
    name = UNAME.get(c["fam"], c["fam"])
    if api == "utfc":
        nC = nc_value(c["nC"][0], jnp)
        obj = tfc.utfc(c.get("N", 5), nC, c["m"] - 1, basis=name, x0=x0[0], xf=xf[0], backend=c["backend"])
        bc = obj.basisClass
    elif api == "mtfc":
        if c["fam"] in UNAME:
            nC = nc_value(c["nC"][0], jnp)
        else:
            nC = [nc_value(e, jnp) for e in c["nC"]]
            if c.get("nc2d"):
                # all dimensions in one array, the shorter lists filled up with -1
                k = max(len(e["v"]) for e in c["nC"])
                rows = [list(e["v"]) + [-1] * (k - len(e["v"])) for e in c["nC"]]
                nC = jnp.array(rows) if c["nc2d"] == "jnp" else onp.array(rows)
        obj = tfc.mtfc(c.get("n", [3] * c["dim"]), nC, c["m"] - 1, dim=c["dim"], basis=name, x0=x0, xf=xf, backend=c["backend"])
        bc = obj.basisClass
    else:
        if c["backend"] == "C++":
            from tfc.utils import BF
        else:
            from tfc.utils import BF_Py as BF
        if c["dim"] == 1 and api == "BF":
            e = c["nC"][0]
            nC = onp.arange(max(0, e["v"][0]), dtype=onp.int32) if e["k"] == "int" else onp.array(e["v"], dtype=onp.int32)
            obj = getattr(BF, name)(x0[0], xf[0], nC, c["m"])
        else:
            raise ValueError(api)
        bc = obj
    if c["fam"] in UNAME:
        w, b = weights(c)
        if c.get("wset", "") == "strided":
            wide = onp.full((c["m"], 3), 9.5)
            wide[:, 1] = b
            bc.b = wide[:, 1]
            if c["dim"] == 1 and c["api"] != "mtfc":
                wide2 = onp.full((c["m"], 2), -7.25)
                wide2[:, 0] = w[0]
                bc.w = wide2[:, 0]
            else:
                wt = onp.asfortranarray(w)
                bc.w = wt
        elif c.get("wset", "") == "jnp":
            bc.b = jnp.array(b)
            bc.w = jnp.array(w[0] if (c["dim"] == 1 and c["api"] != "mtfc") else w)
        else:
            bc.b = b
            bc.w = w[0] if (c["dim"] == 1 and c["api"] != "mtfc") else w
    return obj, bc


ACC1 = {"H": 0, "dH": 1, "d2H": 2, "d4H": 4, "d8H": 8}
ACCN = {"H": {}, "Hx": {0: 1}, "Hy": {1: 1}, "Hxy": {0: 1, 1: 1}, "Hx2": {0: 2}, "Hy2": {1: 2}, "Hx2y": {0: 2, 1: 1}, "Hz": {2: 1}}


def accessor(c, obj):
    """The public evaluator for the declared order c['d'] (before any AD): a function of *x."""
    full = bool(c["full"])
    api = c["api"]
    if api == "BF":
        return lambda x: obj.H(x, c["d"][0], full)
    acc = c.get("acc")
    if acc:
        f = getattr(obj, acc)
        return (lambda *x: f(*x, full=full)) if full or c.get("kwfull") else (lambda *x: f(*x))
    if api == "utfc":
        return lambda x: obj.basisClass.H(x, c["d"][0], full)
    return lambda *x: obj.basisClass.H(onp.array(x), onp.array(c["d"], dtype=onp.int32), full)


def evaluate(c, obj, xs):
    """Apply the history c['path'] / c['ops'] and return the matrix."""
    import jax
    import jax.numpy as jnp
    from tfc.utils import egrad, egradSimple

    f = accessor(c, obj)
    path = c["path"]
    if c["api"] == "BF" or not c.get("acc"):
        return f(*xs)
    dim = c["dim"]
    ad = c.get("ad", "egrad")
    if path in ("complex", "cstep"):
        # the Python backend works over other fields: a complex input gives a complex matrix; the derivative along
        # op by the complex step x + i h (h tiny) is the imaginary part over h, to rounding
        xs = [onp.asarray(x, dtype=complex) for x in xs]
        if path == "cstep":
            xs[c["ops"][0] - 1] = xs[c["ops"][0] - 1] + 1e-30j
            H = onp.asarray(f(*xs))
            return H.imag / 1e-30
        H = onp.asarray(f(*xs))
        if H.dtype != onp.complex128:
            raise TypeError("complex input gave " + str(H.dtype))
        if onp.any(H.imag != 0):
            raise ValueError("real points gave complex values")
        return H.real
    for k, op in enumerate(c["ops"]):
        mode = ad[k] if isinstance(ad, list) else ad
        if mode == "egrad":
            f = egrad(f, op - 1)
        elif mode == "egradSimple":
            f = egradSimple(f, op - 1)
        elif mode in ("jvp", "linearize", "vjp"):
            tv = onp.array([float(m[k]) for m in c["mul"]])
            tv = tv[spread(len(tv), len(xs[0]) // len(tv))] if len(tv) != len(xs[0]) else tv

            if mode == "vjp":
                # one pull-back per column: the cotangent of point i in that column is the factor of point i
                def f(*a, _f=f, _op=op, _tv=tv):
                    out, pull = jax.vjp(_f, *a)
                    z = jnp.zeros_like(out)
                    return jnp.stack([pull(z.at[:, j].set(jnp.asarray(_tv)))[_op - 1] for j in range(out.shape[1])], axis=1)
                continue

            def f(*a, _f=f, _op=op, _tv=tv, _lin=mode == "linearize"):
                tan = [jnp.zeros_like(x) for x in a]
                tan[_op - 1] = jnp.asarray(_tv)
                if _lin:
                    return jax.linearize(_f, *a)[1](*tan)
                return jax.jvp(_f, tuple(a), tuple(tan))[1]
        elif mode == "scaled":
            # derivative of h(s) = H(t*s) at s = x/t along s: multiplies by t
            t = float(c["mul"][0][k])

            def f(*a, _f=f, _op=op, _t=t):
                def h(*s):
                    s = list(s)
                    s[_op - 1] = s[_op - 1] * _t
                    return _f(*s)
                b = list(a)
                b[_op - 1] = b[_op - 1] / _t
                return egrad(h, _op - 1)(*b)
        elif mode in ("jacfwd", "jacrev"):
            def f(*a, _f=f, _op=op, _jac=getattr(jax, mode)):
                J = _jac(_f, _op - 1)(*a)      # (N, m, N): only the diagonal is non-zero
                n = J.shape[0]
                off = J[~onp.eye(n, dtype=bool)[:, None, :].repeat(J.shape[1], 1)] if n > 1 else onp.zeros(1)
                if not isinstance(off, jax.core.Tracer) and onp.any(onp.asarray(off) != 0):
                    raise ValueError("jacobian has entries between different points")
                return jnp.stack([J[i, :, i] for i in range(n)])
        else:
            raise ValueError(mode)
    for dv in c.get("dirs", []):
        tans = [onp.array([float(row[k]) for row in dv]) for k in range(dim)]

        def f(*a, _f=f, _t=tans):
            return jax.jvp(_f, tuple(a), tuple(jnp.asarray(t) for t in _t))[1]
    if c.get("sq", 0):
        def f(*a, _f=f):
            return _f(a[0] * a[0], *a[1:])
        for _ in range(c["sq"]):
            f = egrad(f, 0)
        xs = [onp.array([float(Fr(*q)) for q in c["inner"]])] + list(xs[1:])
    xs = [jnp.asarray(x) for x in xs] if c.get("jx", True) else xs
    if path == "eager":
        return f(*xs)
    if path == "jit":
        return jax.jit(f)(*xs)
    if path == "jit2":
        g = jax.jit(f)
        g(*[x[:1] for x in xs])     # a first compilation with another shape
        g(*xs)
        return g(*xs)
    if path == "jitclosure":
        return jax.jit(lambda s: f(*[x + 0.0 * s for x in xs]))(1.0)
    if path == "jitconst":
        return jax.jit(lambda s: f(*xs) * s)(1.0)
    if path == "jitjit":
        return jax.jit(lambda *a: jax.jit(f)(*a))(*xs)
    if path == "numpy":
        return f(*[onp.asarray(x) for x in xs])
    if path == "numpystride":
        return f(*[onp.asarray([v for x in a for v in (x, -7.5)])[::2] for a in [onp.asarray(x) for x in xs]])
    if path == "vmap":
        return jax.vmap(f)(*xs)
    if path == "scan":
        return jax.lax.scan(lambda s, _: (s, f(*xs)), 0.0, None, length=2)[1][1]
    if path == "twice":
        g = jax.jit(f)
        return 0.5 * (g(*xs) + f(*xs))
    if path == "jitother":
        # another evaluation of the same basis (other order, other full flag) compiled in the same program
        o = accessor(dict(c, full=not c["full"]), obj)
        return jax.jit(lambda *a: (f(*a), o(*a)))(*xs)[0]
    if path == "jitvmap":
        return jax.jit(jax.vmap(f))(*xs)
    if path == "vmapjit":
        return jax.vmap(jax.jit(f))(*xs)
    if path in ("rows", "jitrows", "jitcols", "vmap2", "jitvmap2"):
        # a batch of two rows of points: the given ones and the same in another order (not a symmetric batch)
        n = len(xs[0])
        perm = onp.zeros(n, dtype=int) if n == 2 else onp.arange(n)[::-1]
        two = [jnp.stack([x, jnp.asarray(x)[perm]]) for x in xs]
        if path == "jitcols":
            R = jax.jit(jax.vmap(f, in_axes=1, out_axes=1))(*[x.T for x in two])
            R = jnp.moveaxis(R, 1, 0)
        else:
            g = jax.vmap(jax.vmap(f)) if path.endswith("vmap2") else jax.vmap(f)
            R = (jax.jit(g) if path.startswith("jit") else g)(*two)
        if R.ndim != 3 or R.shape[:2] != (2, len(xs[0])):
            raise ValueError("batched shape " + str(R.shape))
        if not onp.allclose(R[1], R[0][perm], rtol=1e-11, atol=1e-11 * (1 + onp.max(onp.abs(R[0])))):
            raise ValueError("rows of the batch differ")
        return R[0]
    if path in ("half", "jithalf"):
        # only one coordinate is mapped, the others are shared
        k = len(xs[0]) % dim
        g = jax.vmap(f, in_axes=tuple(0 if j == k else None for j in range(dim)))
        g = jax.jit(g) if path == "jithalf" else g
        return jnp.stack([g(*[x if j == k else x[i] for j, x in enumerate(xs)])[i] for i in range(len(xs[0]))])
    if path in ("f32", "jitf32", "int", "jitint", "vmapint", "jitmixed"):
        # points of another real type are the same points
        ty = onp.float32 if path.endswith("f32") else onp.int64 if len(xs[0]) % 2 else onp.int32
        ys = [onp.asarray(x).astype(ty) for x in xs]
        if path == "jitmixed":
            ys[-1] = onp.asarray(xs[-1])
        if not all(onp.array_equal(x, y) for x, y in zip(xs, ys)):
            raise RuntimeError("points not exact")
        g = jax.jit(f) if path.startswith("jit") else jax.vmap(f) if path == "vmapint" else f
        return g(*[jnp.asarray(y) for y in ys])
    if path == "jitcolumn":
        return jax.jit(f)(*[x[:, None] for x in xs])
    if path == "pejit":
        from tfc.utils import pejit
        g = pejit(*xs, jnp.ones(1), constant_arg_nums=list(range(dim)))(lambda *a: f(*a[:-1]) * a[-1])
        return g(jnp.ones(1))
    if path == "cond":
        return jax.jit(lambda *a: jax.lax.cond(a[0][0] < 1e30, lambda *b: f(*b), lambda *b: 0.0 * f(*b), *a))(*xs)
    if path == "fori":
        def body(i, acc):
            return acc + f(*xs)
        z = jnp.zeros_like(f(*xs))
        return jax.jit(lambda z: jax.lax.fori_loop(0, 1, body, z))(z)
    if path == "xi":
        # Jacobian of H(x) xi with respect to xi is H(x)
        H0 = f(*xs)
        m = H0.shape[1]
        return jax.jacfwd(lambda xi: f(*xs) @ xi)(jnp.arange(1.0, m + 1.0))
    if path == "jitxi":
        m = f(*xs).shape[1]
        return jax.jit(jax.jacfwd(lambda xi: f(*xs) @ xi))(jnp.arange(1.0, m + 1.0))
    if path == "remat":
        return jax.jit(jax.checkpoint(f))(*xs)
    if path == "jitrev":
        # Jacobian for the coefficients by reverse mode through a compiled program
        m = f(*xs).shape[1]
        return jax.jit(jax.jacrev(lambda xi, *a: f(*a) @ xi))(jnp.arange(1.0, m + 1.0), *xs)
    if path == "aot":
        return jax.jit(f).lower(*xs).compile()(*xs)
    if path == "jaxpr":
        return jax.core.eval_jaxpr(*(lambda j: (j.jaxpr, j.consts))(jax.make_jaxpr(f)(*xs)), *xs)[0]
    if path == "while":
        # evaluated in the body of a loop whose state holds the points
        return jax.jit(lambda *a: jax.lax.while_loop(lambda s: s[0] < 2, lambda s: (s[0] + 1, f(*s[2:])) + tuple(s[2:]), (0, 0.0 * f(*a)) + tuple(a))[1])(*xs)
    if path in ("lmap", "jitlmap"):
        rows = jnp.stack([jnp.stack(xs), jnp.stack(xs)[:, ::-1]])
        g = lambda r: jax.lax.map(lambda q: f(*q), r)
        R = (jax.jit(g) if path == "jitlmap" else g)(rows)
        if not onp.allclose(R[1], R[0][::-1], rtol=1e-11, atol=1e-11 * (1 + onp.max(onp.abs(R[0])))):
            raise ValueError("rows of the batch differ")
        return R[0]
    if path in ("threads", "parallel"):
        return concurrent(f, xs, path, c)
    raise ValueError(path)


def concurrent(f, xs, path, c):
    """Many executions of the compiled evaluation at the same time, each with the points in another order (Concur.tla)."""
    import jax
    import jax.numpy as jnp
    from concurrent.futures import ThreadPoolExecutor

    n = len(xs[0])
    P = 6
    shifts = [(i * (n // P + 1)) % n for i in range(P)]
    ys = [[jnp.roll(x, s) for x in xs] for s in shifts]
    base = onp.asarray(jax.jit(f)(*xs))
    tol = 1e-11 * (1 + onp.max(onp.abs(base)))

    def check(R, s):
        R = onp.asarray(R)
        if R.shape != base.shape or not onp.all(onp.abs(R - onp.roll(base, s, axis=0)) <= tol):
            raise ValueError("concurrent executions disturb each other")
    if path == "parallel":
        # independent evaluations within one program
        g = jax.jit(lambda ys: [f(*y) for y in ys])
        for _ in range(6):
            for R, s in zip(g(ys), shifts):
                check(R, s)
        return base
    g = jax.jit(f)

    def work(i):
        for _ in range(12):
            check(g(*ys[i]), shifts[i])
    with ThreadPoolExecutor(P) as ex:
        for fu in [ex.submit(work, i) for i in range(P)]:
            fu.result()
    return base


def spread(n0, reps):
    """Row indices of reps rotated copies of n0 points (the first copy is in order)."""
    i = onp.arange(n0 * reps)
    return (i + i // n0) % n0


def execute(c):
    reps = int(c.get("reps", 1))
    try:
        obj, bc = build(c)
        xs = points(c)
        n0 = len(xs[0])
        if reps > 1:
            idx = spread(n0, reps)
            xs = [onp.asarray(x)[idx] for x in xs]
        H = onp.asarray(evaluate(c, obj, xs))
    except BaseException as e:  # noqa: an exception of the code under test is an observation
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        return [event(c, raised=type(e).__name__ + ": " + str(e)[:120])]
    nfull = nkept = -1
    try:
        if c["api"] == "mtfc":
            nfull, nkept = int(bc.numBasisFuncFull), int(bc.numBasisFunc)
        elif c["backend"] == "C++":
            nfull, nkept = int(bc.m), int(bc.m) - int(bc.numC)
    except BaseException as e:
        return [event(c, raised="counts: " + type(e).__name__)]
    if H.ndim != 2:
        return [event(c, shape=list(H.shape), rows=n0 * reps, dtype=str(H.dtype), nfull=nfull, nkept=nkept)]
    rowfun = True
    if reps > 1 and H.shape[0] == n0 * reps:
        first = H[idx]
        rowfun = bool(onp.all((H == first) | (onp.abs(H - first) <= 1e-12 * onp.maximum(1, onp.abs(first)))))
    obs = decode_rows(c, H, list(range(min(n0, H.shape[0]))))
    return [event(c, shape=list(H.shape), obs=obs, rowfun=rowfun, rows=n0 * reps, dtype=str(H.dtype), nfull=nfull, nkept=nkept)]
