"""Runs histories of pe / pejit functions.  See spec/TracePe.tla."""
import numpy as onp


def execute(case):
    import jax
    import jax.numpy as np
    from jax import tree_util
    from tfc.utils import TFCDict, TFCDictRobust, pejit
    from tfc.utils.TFCUtils import pe

    def build(form, v):
        """argument tree from flat integers"""
        a = np.array(v, dtype=float)
        return {
            "vec": lambda: a, "np": lambda: onp.array(v, dtype=float), "mat": lambda: a.reshape(1, -1), "scalar": lambda: np.array(float(v[0])),
            "int": lambda: np.array(v), "pyint": lambda: int(v[0]), "pyfloat": lambda: float(v[0]),
            "dict": lambda: {"p": a[:1], "q": a[1:]}, "tuple": lambda: (a[:1], [a[1:]]), "tfc": lambda: TFCDict({"z": a[:1], "a": a[1:]}),
            "robust": lambda: TFCDictRobust({"z": a[:1].reshape(1, 1), "a": a[1:]}),
        }[form]()

    def flat(x):
        # order of the logged integers: z before a in the dictionaries
        if isinstance(x, (TFCDict, TFCDictRobust)):
            ls = [x[k] for k in x.keys()]
        else:
            ls = tree_util.tree_leaves(x)
        return np.concatenate([np.ravel(t) for t in ls])

    def sig(x):
        f = flat(x)
        return np.dot(f, np.arange(1, f.shape[0] + 1, dtype=float))

    def signature(x):
        return tree_util.tree_structure(x), [(np.shape(t), str(np.asarray(t).dtype)) for t in tree_util.tree_leaves(x)]

    out = []
    objs = []
    cur = [list(v) for v in case["start"]]
    for op in case["ops"]:
        if op["op"] == "change":
            cur[op["k"] - 1] = op["v"]
            continue
        if op["op"] == "new":
            spec = case["funs"][len(objs)]
            n = op["n"]
            argforms = case["argforms"][:n]
            ran = [0]

            def f(*args, spec=spec, ran=ran):
                ran[0] += 1
                leaves = []
                for fm in spec["forms"]:
                    if fm["k"] == "id":
                        leaves.append(args[fm["a"] - 1])
                    else:
                        s = 0.0
                        for c, as_ in fm["terms"]:
                            t = float(c)
                            for a in as_:
                                t = t * sig(args[a - 1])
                            s = s + t
                        leaves.append(s + np.arange(1, fm["a"] + 1, dtype=float))
                if spec["tree"] == "leaf":
                    return leaves[0]
                if spec["tree"] == "tuple":
                    return tuple(leaves)
                if spec["tree"] == "list":
                    return leaves
                if spec["tree"] == "dict":
                    return {"o%d" % k: v for k, v in enumerate(leaves)}
                return {"in": (leaves[0],), "zz": leaves[1:]}

            ev = dict(b=case["id"], op="new", n=n, cs=op["cs"], vals=cur[:n], forms=spec["forms"], raised="", kept=True)
            out.append(ev)
            vals = [build(argforms[k], cur[k]) for k in range(n)]
            cs = [k - 1 for k in op["cs"]]
            keep = list(cs)
            try:
                fn = (pejit if spec["jit"] else pe)(*vals, constant_arg_nums=cs)(f)
                ref = signature(f(*vals))
                ev["kept"] = cs == keep
            except BaseException as e:
                ev["raised"] = type(e).__name__ + ": " + str(e)[:80]
                return out
            objs.append(dict(fn=fn, spec=spec, n=n, cs=op["cs"], ran=ran, ref=ref, base=ran[0], calls=0))
        else:
            o = objs[op["i"] - 1]
            ev = dict(b=case["id"], op="call", i=op["i"], vals=cur[: o["n"]], raised="", tree=True, once=True, out=[])
            out.append(ev)
            passed = [build(case["argforms"][k], cur[k]) for k in range(o["n"]) if k + 1 not in o["cs"]]
            try:
                g = jax.jit(o["fn"]) if op.get("jit") else o["fn"]
                ret = g(*passed)
                ev["tree"] = signature(ret) == o["ref"]
                # split into the leaves of the forms
                sp = o["spec"]
                t = sp["tree"]
                parts = [ret] if t == "leaf" else list(ret) if t in ("tuple", "list") else [ret["o%d" % k] for k in range(len(sp["forms"]))] if t == "dict" else [ret["in"][0]] + list(ret["zz"])
                for p in parts:
                    v = onp.array(flat(p))
                    z = onp.rint(v)
                    ev["out"].append([int(a) if abs(a - b) < 1e-6 else -999999 for a, b in zip(z, v)])
                if o["cs"]:
                    ev["once"] = o["ran"][0] == o["base"]
            except BaseException as e:
                ev["raised"] = type(e).__name__ + ": " + str(e)[:80]
    return out


def crash_event(case, why):
    return dict(b=case["id"], op="new", raised=why)
