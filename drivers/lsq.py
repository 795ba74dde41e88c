"""Runs LS, LsClass, NLLS and NllsClass on integer problems and records what they return.  See spec/TraceLsq.tla."""
import contextlib
import io
import re

import numpy as onp

PR = (46337, 46327)


def residues(p, den):
    s = onp.asarray(p) * den
    if not onp.isfinite(s).all() or (abs(s - onp.rint(s)) > 1e-4).any():
        return False, [[0] * len(PR) for _ in s]
    return True, [[int(t) % pr for pr in PR] for t in onp.rint(s)]


def scaled_qr(case):
    """ScaledQrLs(A, B): one event per column of B (they are independent problems)."""
    import jax.numpy as np
    from tfc.utils.TFCUtils import ScaledQrLs

    A = onp.array(case["A"], dtype=float)
    n = A.shape[1]
    new = dict(b=case["id"], op="new", fn="Qr", raised="", A=case["A"], Ai=[], cplx=False, keys=["x"], shapes=[[n]], kap=[1, 1], const=[], vals={})
    out = [new]
    mk = np.array if case["jaxin"] else onp.array
    cols = [r["vals"]["b"] for r in case["runs"]]
    B = onp.array(cols[0] if case["flat"] else cols, dtype=float).T
    x = cn = None
    why = ""
    try:
        x, cn = ScaledQrLs(mk(A), mk(B))
        x, cn = onp.array(x), float(cn)
    except BaseException as e:
        why = type(e).__name__ + ": " + str(e)[:80]
    for k, r in enumerate(case["runs"]):
        ev = dict(b=case["id"], op="run", raised=why, cplx=False, vals=r["vals"], x0=[0] * n, x0i=[], den=r["den"], null=[], kept=True, timed=True, prints=[], cn=-1)
        out.append(ev)
        if why:
            continue
        want = (n,) if case["flat"] else (n, len(cols))
        ob = dict(type=True, keys=["x"], shapes=[[n]], it=0, vi=[])
        if x.shape != want:
            ob.update(shapes=[list(x.shape)], near=False, v=[[0] * len(PR)] * n)
        else:
            ob["near"], ob["v"] = residues(x if case["flat"] else x[:, k], r["den"])
        if n <= 2:
            g = 1.0
            for j in range(n):
                g *= float(A[:, j] @ A[:, j])
            t = (cn * cn - 1) / (cn * cn + 1)
            z = t * t * g if onp.isfinite(cn) else -7
            ev["cn"] = round(z) if abs(z - round(z)) < 1e-4 else -2
        ev["obs"] = ob
    return out


def execute(case):
    import jax
    import jax.numpy as np
    from jax import tree_util
    from tfc.utils import LS, LsClass, NLLS, NllsClass, TFCDict, TFCDictRobust

    if case["fn"] == "Qr":
        return scaled_qr(case)
    fn, st = case["fn"], case["struct"]
    keys, shapes, cplx = case["keys"], case["shapes"], case["cplx"]
    A = onp.array(case["A"], dtype=float).reshape(len(case["A"]), -1)
    if cplx:
        A = A + 1j * onp.array(case["Ai"], dtype=float).reshape(A.shape)
    sizes = [int(onp.prod(s)) if s else 1 for s in shapes]
    offs = onp.concatenate([[0], onp.cumsum(sizes)]).astype(int)
    blocks = [A[:, offs[k]:offs[k + 1]] for k in range(len(keys))]
    dt = complex if cplx else float

    def pack(x, xi):
        v = onp.array(x, dtype=dt) + (1j * onp.array(xi) if cplx else 0)
        if st == "array":
            return np.array(v) if case["jaxin"] else v
        ent = [(keys[k], (np.array if case["jaxin"] else onp.array)(v[offs[k]:offs[k + 1]].reshape(shapes[k]))) for k in range(len(keys))]
        cls = TFCDict if st == "dict" else TFCDictRobust
        return cls(ent) if case["pairs"] else cls(dict(ent))

    def lin(x):
        if st == "array":
            return np.dot(A, x)
        out = 0.0
        for k in case["resorder"]:
            out = out + np.dot(blocks[k], np.ravel(x[keys[k]]))
        return out

    roles = case["roles"]

    def wrapc(v):
        v = np.array(v, dtype=float)
        return {"arr": lambda: v, "dict": lambda: {"v": v, "z": np.zeros(2)}, "tuple": lambda: (np.ones(1), v), "tfc": lambda: TFCDict({"v": v})}[case["cform"]]()

    def unc(c):
        return {"arr": lambda: c, "dict": lambda: c["v"], "tuple": lambda: c[1], "tfc": lambda: c["v"]}[case["cform"]]()

    def argv(vals):
        return [wrapc(vals[r]) if r == "c" else np.array(vals[r], dtype=float) for r in roles]

    base = case["vals"]

    def split(a):
        d = {r: np.array(base[r], dtype=float) for r in "wbc"}
        for r, v in zip(roles, a):
            d[r] = unc(v) if r == "c" else v
        return d

    q = case["q"]

    def res(xi, *a):
        d = split(a)
        if fn in ("LS", "LsClass"):
            return d["w"] * lin(xi) - d["b"] - d["c"]
        return d["w"] * (lin(xi) - np.dot(A, d["b"])) ** q + d["c"]

    kap = case["kap"][0] / case["kap"][1]

    def J(xi, *a):
        d = split(a)
        if fn in ("LS", "LsClass") or q == 1:
            return kap * d["w"][:, None] * A
        return kap * (2 * d["w"] * (lin(xi) - np.dot(A, d["b"])))[:, None] * A

    kw = {}
    if case["userJ"]:
        kw["J"] = J
    if case["method"]:
        kw["method"] = case["method"]
    if cplx:
        kw["holomorphic"] = True
    if case["timer"]:
        kw["timer"] = True
        if case["timerType"]:
            kw["timerType"] = case["timerType"]
    cnums = list(case["cnums"])
    if cnums:
        kw["constant_arg_nums"] = cnums
    if fn in ("NLLS", "NllsClass"):
        if not case["default"]:
            kw["tol"] = case["tol"][0] / (3.0 * 2 ** case["tol"][1])
            kw["maxIter"] = case["mx"]
        if case["cond"] >= 0:
            lim = case["cond"]
            kw["cond"] = lambda val: val["it"] < lim
        if case["body"]:
            def body(val):
                val["xi"] = tree_util.tree_map(lambda z: 3 * z, val["xi"])
                val["it"] += 2
                return val
            kw["body"] = body
        if case["print"]:
            kw["printOut"] = True
            if case["end"]:
                kw["printOutEnd"] = case["end"]

    new = {k: case[k] for k in ("fn", "A", "Ai", "cplx", "keys", "shapes", "kap", "q", "f", "tol", "mx", "cond", "body", "slack", "print", "timer")}
    new.update(b=case["id"], op="new", raised="", vals=base,
               const=[r for r in "wbc" if r not in roles] + [roles[k - 1] for k in cnums])
    if not cplx:
        new["Ai"] = []
    out = [new]
    obj = None
    snap = lambda t: [(onp.array(v), type(v)) for v in tree_util.tree_leaves(t)]
    same = lambda a, b: len(a) == len(b) and all(x[0].shape == y[0].shape and (x[0] == y[0]).all() for x, y in zip(a, b))
    try:
        if fn in ("LsClass", "NllsClass"):
            x0 = pack(case["runs"][0]["x0"], case["runs"][0]["x0i"])
            obj = (LsClass if fn == "LsClass" else NllsClass)(x0, res, *argv(base), **kw)
    except BaseException as e:
        new["raised"] = type(e).__name__ + ": " + str(e)[:80]
        return out
    for run in case["runs"]:
        ev = dict(b=case["id"], op="run", raised="", cplx=cplx, vals=run["vals"], x0=run["x0"], x0i=run["x0i"], den=run["den"], null=run["null"], kept=True, timed=True, prints=[])
        out.append(ev)
        x0 = pack(run["x0"], run["x0i"])
        try:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                if obj is None:
                    a = argv(base)
                    before = snap((x0, a)), list(cnums)
                    ret = (LS if fn == "LS" else NLLS)(x0, res, *a, **kw)
                    after = snap((x0, a)), list(cnums)
                else:
                    a = [v for k, v in enumerate(argv(run["vals"])) if k + 1 not in cnums]
                    before = snap((x0, a)), list(cnums)
                    ret = obj.run(x0, *a)
                    after = snap((x0, a)), list(cnums)
                jax.effects_barrier()
            ev["kept"] = same(before[0], after[0]) and before[1] == after[1]
            nl = fn in ("NLLS", "NllsClass")
            if nl or case["timer"]:
                want = (2 if nl else 1) + (1 if case["timer"] else 0)
                ev["timed"] = isinstance(ret, tuple) and len(ret) == want and (not case["timer"] or (isinstance(ret[-1], float) and ret[-1] >= 0))
                sol = ret[0]
                it = int(ret[1]) if nl else 0
            else:
                sol, it = ret, 0
            ob = dict(type=True, near=True, keys=keys, shapes=shapes, it=it)
            if st == "array":
                ob["keys"], ob["shapes"] = keys, [list(sol.shape)]
                flat = onp.array(sol).reshape(-1)
            else:
                ob["type"] = type(sol) is (TFCDict if st == "dict" else TFCDictRobust)
                ob["keys"] = list(sol.keys())
                ob["shapes"] = [list(sol[k].shape) for k in sol.keys()]
                flat = onp.concatenate([onp.array(v).reshape(-1) for v in sol.values()])
            parts = [flat.real, flat.imag if cplx else flat.real * 0]
            if fn in ("LS", "LsClass"):
                for nm, p in zip(("v", "vi"), parts):
                    s = p * run["den"]
                    z = onp.rint(s)
                    if not onp.isfinite(s).all() or (abs(s - z) > 1e-4).any():
                        ob["near"] = False
                        z = onp.zeros_like(s)
                    ob[nm] = [[int(t) % pr for pr in PR] for t in z]
            else:
                fd = case["f"][1]
                sc = float(fd) ** it if it < 40 and not case["body"] else 1.0
                for nm, p in zip(("x", "xi"), parts):
                    s = p * sc
                    z = onp.rint(s)
                    if not onp.isfinite(s).all() or (abs(s - z) > 1e-5).any() or (abs(z) > 1e9).any():
                        ob["near"] = False
                        z = onp.zeros_like(s)
                    ob[nm] = [int(t) for t in z]
                if case["print"]:
                    txt = buf.getvalue()
                    end = case["end"] or "\n"
                    lines = txt.split(end)
                    if lines[-1] != "":
                        ev["prints"] = [[-1, -1]]
                    for ln in lines[:-1]:
                        m = re.fullmatch(r"Iteration: (-?\d+)\tmax\(abs\(res\)\): (\S+)", ln)
                        if not m:
                            ev["prints"].append([-1, -1])
                            continue
                        n = int(m.group(1))
                        v = float(m.group(2)) * float(fd) ** (q * (n + 1))
                        z = round(v) if abs(v) < 1e9 else -1  # also for the warm-up lines, which are not compared
                        if abs(v - z) > 1e-5:
                            z = -1
                        ev["prints"].append([n, z])
                else:
                    ev["prints"] = [[-1, -1]] if "Iteration" in buf.getvalue() else []
            ev["obs"] = ob
        except BaseException as e:
            ev["raised"] = type(e).__name__ + ": " + str(e)[:80]
    return out


def crash_event(case, why):
    return dict(b=case["id"], op="new", raised=why)
