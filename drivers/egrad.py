"""Runs differentiation histories of egrad / egradSimple on polynomial functions.  See spec/TraceEgrad.tla."""
from functools import partial

import numpy as onp

PR = (46337, 46327)


def execute(case):
    import jax
    import jax.numpy as np
    from jax import tree_util
    from tfc.utils import TFCDict, TFCDictRobust, egrad, egradSimple, step

    ev = dict(id=case["id"], owner=case["owner"], vals=case["vals"], outs=case["outs"], hist=[h["j"] for h in case["hist"]],
              obs=[], raised="", tree=True, how=dict(forms=case["forms"], style=case["style"], hist=case["hist"], post=case["post"], out=case["out"], warm=case.get("warm") or {}))

    def build(form, v):
        a = np.array(v, dtype=complex if form.startswith("c:") else onp.float32 if form.startswith("f:") else float)
        form = form.split(":")[-1]
        k = len(v) // 2
        return {
            "vec": lambda: a, "np": lambda: onp.array(a), "mat": lambda: a.reshape(1, -1), "mat2": lambda: a.reshape(2, -1), "mat3": lambda: a.reshape(2, 1, -1), "scalar": lambda: a.reshape(()),
            "dict": lambda: {"q": a[:k], "p": a[k:]}, "tuple": lambda: (a[:k], [a[k:]]), "tfc": lambda: TFCDict({"z": a[:k], "a": a[k:]}),
            "robust": lambda: TFCDictRobust({"z": a[:k].reshape(1, -1), "a": a[k:]}),
        }[form]()

    def flat(x):
        if isinstance(x, (dict, TFCDict, TFCDictRobust)):
            ls = [x[k] for k in (("q", "p") if "q" in x else ("z", "a"))]
        else:
            ls = tree_util.tree_leaves(x)
        return np.concatenate([np.ravel(t) for t in ls])

    owner = case["owner"]
    nargs = len(case["forms"])
    where = {}
    for v, a in enumerate(owner):
        where[v] = (a - 1, sum(1 for u in range(v) if owner[u] == a))

    def shape_out(leaves):
        if case["out"] == "dict":
            return {"o": leaves[0], "n": leaves[1:]}
        if case["out"] == "tuple":
            return tuple(leaves)
        if case["out"] == "mat":
            return np.stack(leaves).reshape(1, -1)
        return np.stack(leaves)

    if case["style"] == "elementwise":
        terms = case["outs"][0]          # the same formula for every element, in terms of the element of each argument

        def f(*args):
            s = 0.0
            for t in terms:
                p = float(t["c"])
                for v, e in enumerate(t["e"]):
                    if e:
                        p = p * args[owner[v] - 1] ** e
                for v in t["s"]:
                    p = p * step(args[owner[v - 1] - 1])
                s = s + p
            return s + 0.0 * args[0]
    else:
        def f(*args):
            fl = [flat(a) for a in args]
            x = lambda v: fl[where[v][0]][where[v][1]]
            leaves = []
            for terms in case["outs"]:
                s = 0.0
                for t in terms:
                    p = float(t["c"])
                    for v, e in enumerate(t["e"]):
                        if e:
                            p = p * x(v) ** e
                    for v in t["s"]:
                        p = p * step(x(v - 1))
                    s = s + p
                leaves.append(s + 0.0 * x(0))
            return shape_out(leaves)

    try:
        args = []
        for a in range(nargs):
            own = case.get("owner_all", owner)
            args.append(build(case["forms"][a], [case["vals"][v] for v in range(len(own)) if own[v] == a + 1]))
        g = f
        for h in case["hist"]:
            if h["wrap"] == "jit":
                g = jax.jit(g)
            elif h["wrap"] == "partial":
                g = partial(lambda k, *a, _g: _g(*a), 1, _g=g)
            op = egrad if h["op"] == "egrad" else egradSimple
            g = op(g) if h["j"] == 1 and case["post"] == "default" else op(g, h["j"] - 1)
        if case["post"] == "jit":
            g = jax.jit(g)
        ref = jax.eval_shape(f, *args)
        if case.get("warm"):     # an earlier call of the same derivative, with arguments of another type, structure or value
            own = case.get("owner_all", owner)
            g(*[build(case["warm"]["forms"][a], [case["warm"]["vals"][v] for v in range(len(own)) if own[v] == a + 1]) for a in range(nargs)])
        ret = g(*args)
        if case["post"] == "again":
            ret = g(*args)
        sig = lambda x: (tree_util.tree_structure(x), [(t.shape, str(t.dtype)) for t in tree_util.tree_leaves(x)])
        ev["tree"] = sig(ret) == sig(ref)
        if case["style"] == "elementwise":
            vals = onp.ravel(onp.array(ret))
        elif case["out"] == "dict":
            vals = onp.array([ret["o"]] + list(ret["n"]))
        else:
            vals = onp.concatenate([onp.ravel(t) for t in tree_util.tree_leaves(ret)])
        for v in vals:
            if abs(complex(v).imag) > 1e-9 or not onp.isfinite(v):
                ev["obs"].append([0, 0, 1])
                continue
            v = complex(v).real
            n = round(v)
            ev["obs"].append([n % PR[0], n % PR[1], 0 if abs(v - n) < 1e-4 else 1])
        if case["style"] == "elementwise":
            # one formula, every element: written out per element for the specification
            N = case["N"]
            ev["owner"], ev["vals"], ev["outs"] = case["owner_all"], case["vals"], case["outs_all"]
        if len(ev["obs"]) != len(ev["outs"]):
            ev["tree"] = False
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        ev["raised"] = type(e).__name__ + ": " + str(e)[:100]
    return [ev]


def crash_event(case, why):
    return dict(id=case["id"], owner=[], vals=[], outs=[], hist=[], obs=[], raised="process: " + why, tree=True)
