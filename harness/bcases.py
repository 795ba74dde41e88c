"""Generation of basis-matrix cases (inputs only; the oracle is the TLA+ specification).

The only thing computed here about values is a magnitude bound, used to keep to cases whose scaled value is an
integer small enough to be recovered exactly from a double."""
from fractions import Fraction as Fr
from functools import lru_cache
import itertools
import math

POLY = ("CP", "LeP", "LaP", "HoPpro", "HoPphy")
ELM = ("Sigmoid", "Tanh", "Sin", "Swish", "ReLU")
BOUND = 2 ** 33


@lru_cache(None)
def coefs(fam, n):
    if n == 0:
        return (Fr(1),)
    if n == 1:
        return {"LaP": (Fr(1), Fr(-1)), "HoPphy": (Fr(0), Fr(2))}.get(fam, (Fr(0), Fr(1)))
    p, q, k = coefs(fam, n - 1), coefs(fam, n - 2), n - 1
    a, b, e = {
        "CP": (0, 2, -1), "LeP": (0, Fr(2 * k + 1, k + 1), Fr(-k, k + 1)),
        "LaP": (Fr(2 * k + 1, k + 1), Fr(-1, k + 1), Fr(-k, k + 1)),
        "HoPpro": (0, 1, -k), "HoPphy": (0, 2, -2 * k),
    }[fam]
    out = [Fr(0)] * (n + 1)
    for i, v in enumerate(p):
        out[i] += a * v
        out[i + 1] += b * v
    for i, v in enumerate(q):
        out[i] += e * v
    return tuple(out)


@lru_cache(None)
def polyval(fam, n, d, z):
    return sum((c * math.perm(k, d) * z ** (k - d) for k, c in enumerate(coefs(fam, n)) if k >= d), Fr(0))


def cmul(fam, L):
    L = Fr(*L)
    if fam in ("CP", "LeP"):
        return 2 / L
    if fam in POLY:
        return Fr(1)
    return 1 / L


def row_scale(c, r):
    """(scale, ok): an integer scale making every entry of the row an integer (times ln2/sqrt3 where that applies),
    and whether the scaled magnitudes are recoverable."""
    fam, dim = c["fam"], c["dim"]
    d = [c["d"][k] + c["ops"].count(k + 1) for k in range(dim)]
    nd = sum(d)
    cs = [cmul(fam, c["L"][k]) for k in range(dim)]
    cpow = Fr(1)
    for k in range(dim):
        cpow *= cs[k] ** d[k]
    mul = 1
    for t in c["mul"][r]:
        mul *= t
    deg = c["m"] - 1
    if fam in POLY:
        zs = [Fr(*c["pts"][r][k]) * cs[k] - (1 if fam in ("CP", "LeP") else 0) for k in range(dim)]
        sc = cpow.denominator
        best = Fr(0)
        dens = 1
        if c.get("dirs") or c.get("sq"):
            return gen_scale(c, r, cs, zs)
        if dim == 1:
            tups = [(j,) for j in range(deg + 1)]
        else:
            tups = [t for t in itertools.product(range(deg + 1), repeat=dim) if sum(t) <= deg]
        for t in tups:
            v = Fr(1)
            for k in range(dim):
                v *= polyval(fam, t[k], d[k], zs[k])
            best = max(best, abs(v))
            dens = math.lcm(dens, v.denominator)
        sc *= dens
        return sc, best * abs(cpow) * abs(mul) * sc <= BOUND
    if fam == "FS":
        sc = cpow.denominator
        g = max(1, (deg + 1) // 2)
        return sc, Fr(g) ** nd * abs(cpow) * abs(mul) * sc * 2 ** dim <= 2 ** 36 // max(1, g // 4)
    W = max([abs(x) for row in c["w"] for x in row] + [1])
    if fam == "Sin":
        sc = cpow.denominator
        return sc, Fr(W) ** nd * abs(cpow) * abs(mul) * sc * 2 <= BOUND // 64
    if fam == "ReLU":
        sc = cpow.denominator
        for k in range(dim):
            sc *= (Fr(*c["pts"][r][k]) * cs[k]).denominator
        return sc, sc * Fr(W) * 64 * abs(cpow) * abs(mul) <= BOUND
    # saturating activations: argument in units
    ks = []
    for j in range(c["m"]):
        u = Fr(c["b"][j])
        for k in range(dim):
            z = Fr(*c["pts"][r][k]) * cs[k]
            if z.denominator != 1:
                return 1, False
            u += c["w"][k][j] * z
        ks.append(int(u))
    sc = cpow.denominator
    big = 0
    for k in ks:
        if abs(k) >= 120:
            continue
        if abs(k) > 30:
            return 1, False
        big = max(big, abs(k))
        h = 2 ** abs(k) + 1
        sc = math.lcm(sc, cpow.denominator * h ** (nd + 1))
    mag = {0: 1, 1: 1, 2: 1, 3: 2, 4: 5, 5: 16, 6: 64, 7: 272, 8: 1400}.get(nd, math.factorial(nd))
    if fam == "Sigmoid":
        mag = 1
    # rounding error of the polynomial in the activation: sum of its coefficients (cancellation) times an ulp
    fub = math.factorial(nd) * 1.4427 ** (nd + 1) * (2 ** nd if fam == "Tanh" else 1) * max(1, big)
    tot = sc * Fr(W) ** nd * abs(cpow) * abs(mul) * mag
    if fam == "Swish":
        # decoded as A ln2 + B by a search over A: keep A small, after removing the unit c^d mul w^d per column
        if any(abs(k) >= 120 for k in ks) and nd > 0:
            pass
        h = 1
        for k in ks:
            if abs(k) < 120:
                h = math.lcm(h, (2 ** abs(k) + 1) ** (nd + 1))
        sat = max([abs(k) for k in ks] + [1])
        # (beyond the reach of the search, the driver starts from the pair it expects)
        return h, h * max(1, sat) * fub * (nd + 1) < 1e12 and nd <= 9 and h * fub * (nd + 1) * 1e-15 < 1e-3
    return sc, tot <= BOUND and float(sc * Fr(W) ** nd * abs(cpow) * abs(mul)) * fub * 1e-15 < 0.02


def gen_scale(c, r, cs, zs):
    """Scale and size of a directional derivative or of a derivative of a composition (polynomial families)."""
    fam, dim, deg = c["fam"], c["dim"], c["m"] - 1

    def part(t, d):
        v = Fr(1)
        for k in range(dim):
            v *= cs[k] ** d[k] * polyval(fam, t[k], d[k], zs[k])
        return v

    def terms(d, j):
        if j == len(c.get("dirs", [])):
            yield 1, d
            return
        for k in range(dim):
            co = c["dirs"][j][r][k]
            if co:
                for a, e in terms([x + (i == k) for i, x in enumerate(d)], j + 1):
                    yield a * co, e
    if c.get("sq"):
        s = Fr(*c["inner"][r])
        sums = [[Fr(1)]]
        for _ in range(c["sq"]):
            new = []
            for e in range(len(sums) + 1):
                a = [k * v for k, v in enumerate(sums[e])][1:] if e < len(sums) else []
                b = [Fr(0)] + [2 * v for v in sums[e - 1]] if e >= 1 else []
                new.append([(a[k] if k < len(a) else 0) + (b[k] if k < len(b) else 0) for k in range(max(len(a), len(b)))])
            sums = new
        ts = [(sum((v * s ** k for k, v in enumerate(q)), Fr(0)), [c["d"][0] + e] + list(c["d"][1:])) for e, q in enumerate(sums)]
    else:
        ts = list(terms(list(c["d"]), 0))
    tups = [t for t in itertools.product(range(deg + 1), repeat=dim) if sum(t) <= deg]
    dens, best = 1, Fr(0)
    for t in tups:
        vs = [a * part(t, d) for a, d in ts]
        tot = sum(vs, Fr(0))
        dens = math.lcm(dens, tot.denominator)
        best = max(best, sum((abs(v) for v in vs), Fr(0)))
    return dens, best * dens <= BOUND


def finalize(c):
    """Fill in defaults and scales; None if the case is out of the recoverable range."""
    c.setdefault("ops", [])
    c.setdefault("w", [])
    c.setdefault("b", [])
    c.setdefault("mul", [[] for _ in c["pts"]])
    c.setdefault("full", False)
    c.setdefault("path", "eager")
    if sum(c["d"]) + len(c["ops"]) > 16 or c["m"] > 34:
        return None
    if c["fam"] in ("Sin", "FS"):
        for row in c["pts"]:
            for k in range(c["dim"]):
                if (Fr(*row[k]) * cmul(c["fam"], c["L"][k])).denominator != 1:
                    return None
    sc = []
    for r in range(len(c["pts"])):
        s, ok = row_scale(c, r)
        if not ok:
            return None
        sc.append(s)
    c["scale"] = [str(s) for s in sc]
    return c


def fr(q):
    q = Fr(q)
    return [q.numerator, q.denominator]


def ints(rng, n, lo, hi, nz=False):
    out = []
    while len(out) < n:
        v = rng.randint(lo, hi)
        if nz and v == 0:
            continue
        out.append(v)
    return out


LENS = [Fr(1), Fr(2), Fr(4), Fr(1, 2), Fr(3), Fr(8), Fr(3, 2), Fr(1, 4), Fr(5), Fr(6)]
X0S = [0.0, 1.0, -1.0, -2.5, 3.25, 0.125, -8.0, 16.0, 7.0]


def rand_points(rng, fam, dim, Ls, n, big=False, d=0):
    """n rows of (x-x0), in and out of the domain, with exactly representable basis coordinates."""
    rows = []
    for _ in range(n):
        row = []
        for k in range(dim):
            c = cmul(fam, fr(Ls[k]))
            if fam in ("CP", "LeP"):
                z = rng.choice([-1, 1, 0, 1, -1, Fr(1, 2), Fr(-1, 2), 2, -2, 3, -3, Fr(3, 4), Fr(-1, 4), Fr(3, 2), Fr(-5, 2)])
                if big:
                    z = rng.choice([-1, 1, 0, Fr(1, 2), Fr(-1, 2)] + [Fr(3, 2), Fr(-3, 2), 2, -2] * (big == "out"))
                t = (z + 1) / c
            elif fam in POLY:
                t = Fr(rng.choice([0, 1, 2, -1, -2, 3, Fr(1, 2), Fr(-1, 2), 4]))
            elif fam == "FS":
                t = Fr(rng.randint(-6, 18)) / c
            elif fam == "ReLU":
                t = Fr(rng.randint(-12, 20), rng.choice([1, 2, 4])) / c
            elif fam == "Sin":
                t = Fr(rng.randint(-8, 14)) / c
            else:
                t = Fr(rng.randint(-1, 1)) / c
            row.append(fr(t))
        rows.append(row)
    return rows


def rand_weights(rng, fam, dim, m, small=False):
    if fam == "ReLU":
        return [ints(rng, m, -4, 4) for _ in range(dim)], ints(rng, m, -5, 5)
    if fam == "Sin":
        return [ints(rng, m, -3, 3) for _ in range(dim)], ints(rng, m, -12, 12)
    hi = 1 if small else 2
    w = [ints(rng, m, -hi, hi) for _ in range(dim)]
    b = ints(rng, m, -1, 1)
    return w, b


def kink(rng, L, pts, w, b):
    """Move a point onto the kink of one of the (univariate) ReLU functions."""
    j, r = rng.randrange(len(b)), rng.randrange(len(pts))
    w[0][j] = rng.choice([1, -1, 2, -2, 4, -4])
    pts[r][0] = fr(-Fr(b[j]) * L / w[0][j])


def rand_nc(rng, m, none_ok=True):
    """A user-level constraint entry and how it is passed; always leaves at least one function."""
    kind = rng.choice(["int", "list", "jnp", "int0", "neg", "list1"])
    if m <= 2:
        kind = rng.choice(["int0", "neg", "list1"])
    if not none_ok and kind in ("int0", "neg") and m > 1:
        kind = "list1"
    if kind == "int":
        return {"k": "int", "v": [rng.randint(1, m - 2)], "form": "int"}
    if kind == "int0":
        return {"k": "int", "v": [0], "form": "int"}
    if kind == "neg":
        return {"k": "int", "v": [-1], "form": "int"}
    if kind == "list1":
        if m <= 1:
            return {"k": "int", "v": [0], "form": "int"}
        return {"k": "list", "v": [rng.randint(0, m - 1)], "form": "list"}
    n = rng.randint(1, m - 2)
    return {"k": "list", "v": rng.sample(range(m), n), "form": rng.choice(["list", "jnp", "np"]) if kind == "jnp" else "list"}


# ------------------------------------------------------------------------------------------ case construction
ACC1 = {0: "H", 1: "dH", 2: "d2H", 4: "d4H", 8: "d8H"}
ACCN = {"H": [0, 0, 0, 0], "Hx": [1, 0, 0, 0], "Hy": [0, 1, 0, 0], "Hxy": [1, 1, 0, 0], "Hx2": [2, 0, 0, 0],
        "Hy2": [0, 2, 0, 0], "Hx2y": [2, 1, 0, 0], "Hz": [0, 0, 1, 0]}
UT_POLY = ("CP", "LeP")
MFAMS = ("CP", "LeP", "FS") + ELM


def nc_forms(rng, e, where):
    """A random way of writing the constraint entry e; where is 'utfc', 'elm' (mtfc with ELM) or 'entry'."""
    if e["k"] == "int":
        e["form"] = rng.choice(["int", "int", "npint"])
    elif where == "entry":
        e["form"] = rng.choice(["list", "list", "tuple", "jnp", "np"])
    else:
        e["form"] = rng.choice(["list", "list", "tuple", "jnp", "np", "np32", "npstride", "jnp64"])
    return e


def mk(rng, fam, dim, m, d=None, backend="C++", api=None, acc=None, ops=(), ad=None, mulf=None, nC=None, npts=None,
       full=None, path="eager", tries=30, wide=False, **kw):
    """One finalised case or None.  mulf(rng, nrows) gives the per-row tangent factors for the operations `ops`."""
    api = api or ("utfc" if dim == 1 else "mtfc")
    if acc is not None:
        d = [{v: k for k, v in ACC1.items()}[acc]] if api == "utfc" else ACCN[acc][:dim]
    for t in range(tries):
        small, tiny = t > tries // 3, t > 2 * tries // 3
        Ls = [Fr(rng.choice([1, 2])) if small else rng.choice(LENS) for _ in range(dim)]
        n = npts or rng.choice([1, 2, 3, 4])
        pts = rand_points(rng, fam, dim, Ls, n, big=(m > 9 or tiny))
        w, b = rand_weights(rng, fam, dim, m, small=small) if fam in ELM else ([], [])
        if wide and fam in ("Sigmoid", "Tanh", "Swish"):
            # arguments up to saturation: the bias takes up what the weights leave; one size, since the scale grows with every other
            K = rng.choice([4, 5, 6, 7, 8, 10, 12, 14, 17, 20, 24, 30, 30][: 13 if fam != "Swish" else 8])
            if small:
                K = rng.choice([3, 4, 5, 6])
            z = [rng.choice([-1, 0, 1, 2]) for _ in range(dim)]
            pts = [[fr(Fr(z[k]) / cmul(fam, fr(Ls[k]))) for k in range(dim)]] * n
            for j in range(m):
                b[j] = rng.choice([K, K, -K, -K, 0, 150]) - sum(w[k][j] * z[k] for k in range(dim))
        if fam == "ReLU" and dim == 1 and rng.random() < 0.3:
            kink(rng, Ls[0], pts, w, b)
        if nC is not None:
            nn = [dict(e) for e in nC]
        elif fam in ELM or dim == 1:
            nn = [nc_forms(rng, rand_nc(rng, m), "utfc" if api == "utfc" else ("elm" if fam in ELM else "entry"))]
        else:
            nn = [nc_forms(rng, rand_nc(rng, m), "entry") for _ in range(dim)]
        c = dict(fam=fam, dim=dim, m=m, nC=nn, d=list(d), L=[fr(x) for x in Ls], x0=[rng.choice(X0S) for _ in range(dim)],
                 pts=pts, w=w, b=b, api=api, backend=backend, full=(rng.random() < 0.35 if full is None else full),
                 ops=list(ops), path=path, **kw)
        if acc is not None:
            c["acc"] = acc
        if ops:
            c["ad"] = ad if ad is not None else "egrad"
            c["mul"] = mulf(rng, n) if mulf else [[1] * len(ops) for _ in pts]
        if fam in ELM and "wset" not in c:
            c["wset"] = rng.choice(["", "", "strided", "jnp"])
        if api == "mtfc":
            c["n"] = [rng.choice([2, 3]) for _ in range(dim)]
        if kw.get("sq"):
            # x_1 = s^2: choose s and x0 so that the point is exact
            inner = [Fr(rng.choice([0, 1, -1, 2, Fr(1, 2), Fr(-3, 2), 3]))for _ in pts]
            c["inner"] = [fr(s) for s in inner]
            c["x0"][0] = float(rng.choice([0, 1, -1, Fr(-1, 2)]))
            for i, s in enumerate(inner):
                c["pts"][i][0] = fr(s * s - Fr(c["x0"][0]))
        if "ndirs" in kw:
            c["dirs"] = [[[rng.choice([0, 1, 2, -1, 3]) for _ in range(dim)] for _ in pts] for _ in range(kw["ndirs"])]
        c = finalize(c)
        if c:
            return c
    return None


def key(c):
    return (c["fam"], c["backend"], c["api"], c["dim"], c["m"], str(c["d"]), str(c["L"]), str(c["nC"]), c["full"],
            str(c["pts"]), c["path"], str(c["ops"]), str(c.get("ad")), str(c["mul"]), str(c.get("dirs")), c.get("sq", 0))


def at(rng, c, d, full, ops=(), npts=None, tries=40):
    """An evaluation of the object described by case c (its own family, domain, weights, constraints) at fresh points."""
    Ls = [Fr(*x) for x in c["L"]]
    for t in range(tries):
        n = npts or rng.choice([1, 2, 3])
        e = {k: c[k] for k in ("fam", "dim", "m", "nC", "L", "x0", "w", "b", "api", "backend")}
        e.update(pts=rand_points(rng, c["fam"], c["dim"], Ls, n, big=t > tries // 2), d=list(d), full=full, ops=list(ops), path="eager")
        e = finalize(e)
        if e:
            return e
    return None
