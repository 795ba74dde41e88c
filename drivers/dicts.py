"""Replays dictionary histories on the real TFCDict / TFCDictRobust."""
import numpy as onp


def ev(c, op, **kw):
    e = {"b": c["id"], "cls": c["cls"], "np": c["np"], "op": op, "i": 0, "j": 0, "key": "", "ents": [], "arr": [], "after": [], "old": [], "type": True, "raised": ""}
    e.update(kw)
    return e


def crash_event(c, why):
    return ev(c, "crash", raised="process: " + why)


KEYS = {"a": "a", "b": "b", "c": "xi_long", "d": "d"}


def execute(c):
    import jax
    import jax.numpy as jnp
    from tfc.utils import TFCDict, TFCDictRobust

    cls = TFCDict if c["cls"] == "TFCDict" else TFCDictRobust
    km = c["keymap"]
    real = {k: (tuple(v) if isinstance(v, list) else v) for k, v in km.items()}
    back = {v: k for k, v in real.items()}
    mkarr = onp.array if c["np"] else jnp.array

    def val(e):
        return mkarr(lay(onp.array(e["v"], dtype=float).reshape(e["s"])))

    cx = bool(c.get("cx"))

    def lay(a):
        """The values as given; complex ones are the multiples of 1 + 2i, numpy arrays of several dimensions are stored column by column."""
        a = a * (1 + 2j) if cx else a
        return a.T.copy().T if c["np"] and a.ndim > 1 else a

    def num(x):
        if cx:
            if complex(x).imag != 2 * complex(x).real:
                return -(2 ** 30)
            x = complex(x).real
        elif onp.iscomplexobj(x):
            return -(2 ** 30)
        x = float(x)
        if x != x or abs(x) > 2 ** 30 or x != round(x):
            return -(2 ** 30)
        return int(round(x))

    def content(d):
        return [{"k": back[k], "s": list(onp.shape(v)), "v": [num(x) for x in onp.asarray(v).flatten()]} for k, v in d.items()]

    out, ds = [], []
    for s in c["steps"]:
        op, i, j = s["op"], s.get("i", 0), s.get("j", 0)
        e = ev(c, op, i=i, j=j, key=s.get("key", ""), ents=s.get("ents", []), arr=s.get("arr", []))
        old = None
        new = None
        try:
            d = ds[i - 1] if 1 <= i <= len(ds) else None
            arr = mkarr(lay(onp.array(s["arr"], dtype=float))) if "arr" in s else None
            if op in ("new", "clone"):
                ents = [(real[x["k"]], val(x)) for x in s["ents"]]
                new = cls(ents) if s.get("form", 0) == 0 else cls(dict(ents))
                ds.append(new)
            elif op == "put":
                d[real[s["ents"][0]["k"]]] = val(s["ents"][0])
            elif op == "update":
                ents = [(real[x["k"]], val(x)) for x in s["ents"]]
                d.update(dict(ents) if s.get("form", 0) == 0 else ents)
            elif op == "del":
                if s.get("form", 0) == 0:
                    del d[real[s["key"]]]
                else:
                    d.pop(real[s["key"]])
            elif op == "move":
                d.move_to_end(real[s["key"]])
            elif op == "round":
                a = d.toArray()
                e["arr"] = [num(x) for x in onp.asarray(a)] if onp.ndim(a) == 1 else [-1]
                old = d
            elif op == "todict":
                if s.get("form", 0) == 1:
                    arr = arr.reshape((-1, 1))
                new = d.toDict(arr)
                ds.append(new)
                old = d
            elif op in ("add", "sub"):
                o = ds[j - 1]
                if s.get("form", 0) == 1:
                    o = dict(o)
                new = d + o if op == "add" else d - o
                ds.append(new)
                old = d
            elif op in ("iadd", "isub"):
                o = ds[j - 1]
                if s.get("form", 0) == 1:
                    o = dict(o)
                x = d
                if op == "iadd":
                    x += o
                else:
                    x -= o
                ds[i - 1] = new = x
            elif op in ("addA", "subA", "iaddA", "isubA"):
                if s.get("form", 0) == 1:
                    arr = arr.reshape((-1, 1))
                x = d
                if op == "addA":
                    x = d + arr
                elif op == "subA":
                    x = d - arr
                elif op == "iaddA":
                    x += arr
                else:
                    x -= arr
                ds[i - 1] = new = x
                old = d
            elif op == "tree":
                leaves, td = jax.tree_util.tree_flatten(d)
                ds[i - 1] = new = jax.tree_util.tree_unflatten(td, leaves)
                old = d
            elif op == "jit":
                f = jax.jit((lambda y: y.toDict(3.0 * y.toArray())) if s.get("form", 0) == 0 else (lambda y: (y + y) + y))
                ds[i - 1] = new = f(d)
                old = d
            elif op == "grad":
                ds[i - 1] = new = jax.grad(lambda y: 0.5 * jnp.sum(y.toArray() ** 2), holomorphic=cx)(d)
                old = d
            elif op == "map":
                ds[i - 1] = new = jax.tree_util.tree_map(lambda v: -2.0 * v, d)
                old = d
            e["type"] = new is None or type(new) is cls
            e["after"] = [content(x) for x in ds]
            if old is not None:
                e["old"] = content(old)
        except BaseException as x:
            if isinstance(x, (KeyboardInterrupt, MemoryError)):
                raise
            e["raised"] = type(x).__name__ + ": " + str(x)[:120]
            out.append(e)
            break
        out.append(e)
    return out
