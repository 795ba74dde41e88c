"""Collocation grids of real utfc / mtfc objects, logged by position (see spec/TraceGrid.tla)."""
import math
from fractions import Fraction as Fr
import numpy as onp
from drivers.basis import dec_int, UNAME

UN = {v: k for k, v in UNAME.items()}


def base(c):
    return {"id": c["id"], "basis": c["basis"], "n": c["n"], "L": c["L"], "raised": "", "N": 0, "zshape": 0, "xshape": [],
            "z": [], "x": [], "c": [], "cs": int(c["cs"]), "ends": True, "dtype": "float64", "keeps": True,
            "how": {k: c.get(k, "") for k in ("api", "backend", "x0", "form", "nC", "deg")}}


def crash_event(c, why):
    return dict(base(c), raised="process: " + why)


def pos(v, lo, hi, n, lob):
    """Position of v on the grid of n nodes from lo to hi."""
    t = (float(v) - lo) / (hi - lo)
    if not math.isfinite(t) or t < -1e-9 or t > 1 + 1e-9:
        return [-1, 1]
    t = min(1.0, max(0.0, t))
    p = math.acos(2 * t - 1) / math.pi * (n - 1) if lob else t * (n - 1)
    q = round(p)
    node = lo + (hi - lo) * ((math.cos(math.pi * q / (n - 1)) + 1) / 2 if lob else q / (n - 1))
    return [q, 0 if abs(p - q) < 1e-4 and abs(float(v) - node) <= 1e-12 * max(1.0, abs(lo), abs(hi)) else 1]


def rng_int(c):
    return (onp.int16, onp.int32, onp.int64)[(sum(c["n"]) + c["deg"]) % 3]


def execute(c):
    import jax.numpy as jnp
    import tfc

    ev = base(c)
    dim = len(c["n"])
    basis = c["basis"]
    fs = basis == "FS"
    lob = basis in ("CP", "LeP")
    u = 2 * math.pi if fs else 1.0
    x0 = [float(v) for v in c["x0"]]
    xf = [x0[k] + float(Fr(*c["L"][k])) * u for k in range(dim)]
    form = c["form"]
    try:
        a0, af = list(x0), list(xf)
        if form == "int":
            a0 = [int(v) for v in a0]
            af = [int(v) for v in af]
        if c["api"] == "utfc":
            kw = {"x0": a0[0], "xf": af[0]}
            if form == "none":
                kw.pop("x0")
            if form == "np":
                kw = {k: onp.float64(v) for k, v in kw.items()}
            o = tfc.utfc(c["n"][0], c["nC"], c["deg"], basis=basis, backend=c["backend"], **kw)
            zs, xs, cc = [onp.asarray(o.z)], [onp.asarray(o.x)], [float(o.c)]
            N = int(o.N)
            keeps = o.x0 == x0[0] and o.xf == xf[0] and o.deg == c["deg"] and o.basis == basis
        else:
            if form == "np":
                a0, af, n = onp.array(a0), onp.array(af), onp.array(c["n"])
            elif form == "jnp":
                a0, af, n = jnp.array(a0), jnp.array(af), jnp.array(c["n"])
            elif form == "npint":
                ty = rng_int(c)
                a0, af, n = onp.array([int(v) for v in a0], dtype=ty), onp.array([int(v) for v in af], dtype=ty), onp.array(c["n"], dtype=ty)
            elif form == "jnpint":
                ty = rng_int(c)
                a0, af, n = jnp.array([int(v) for v in a0], dtype=ty), jnp.array([int(v) for v in af], dtype=ty), jnp.array(c["n"], dtype=ty)
            elif form == "tuple":
                a0, af, n = tuple(a0), tuple(af), tuple(c["n"])
            else:
                n = list(c["n"])
            kw = {"x0": a0, "xf": af}
            if form == "none":
                kw.pop("x0")
            nC = c["nC"] if basis in UN else [c["nC"]] * dim
            o = tfc.mtfc(n, nC, c["deg"], dim=dim, basis=basis, backend=c["backend"], **kw)
            zs = [onp.asarray(v) for v in onp.asarray(o.z)]
            xs = [onp.asarray(v) for v in o.x]
            cc = [float(v) for v in onp.asarray(o.c).flatten()]
            N = int(o.N)
            keeps = (list(map(float, o.x0)) == x0 and list(map(float, o.xf)) == xf and o.deg == c["deg"] and o.dim == dim
                     and len(zs) == dim and len(xs) == dim and len(cc) == dim)
        z0, zf = (-math.pi, math.pi) if fs else ((-1.0, 1.0) if lob else (0.0, 1.0))
        ev["N"] = N
        ev["zshape"] = int(zs[0].shape[0])
        ev["xshape"] = [int(v.shape[0]) if v.ndim == 1 else -1 for v in xs]
        ev["z"] = [[pos(v, z0, zf, c["n"][k], lob) for v in zs[k]] for k in range(dim)]
        ev["x"] = [[pos(v, x0[k], xf[k], c["n"][k], lob) for v in xs[k]] for k in range(dim)]
        ev["c"] = [dec_int(cc[k], int(c["cs"])) for k in range(dim)]
        ends = True
        for k in range(dim):
            sc = 1e-12 * max(1.0, abs(x0[k]), abs(xf[k]))
            ends = ends and abs(xs[k][0] - x0[k]) <= sc and abs(xs[k][-1] - xf[k]) <= sc
        ev["ends"] = bool(ends)
        ev["dtype"] = str(onp.result_type(*(zs + xs)))
        ev["keeps"] = bool(keeps)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        ev["raised"] = type(e).__name__ + ": " + str(e)[:150]
    return [ev]
