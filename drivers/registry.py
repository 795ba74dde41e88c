"""Replays registry histories (several basis objects in one process) on the real code."""
import gc
import numpy as onp
from drivers import basis as B


def ev(b, op, **kw):
    e = {"b": b, "op": op, "o": 0, "f": 0, "raised": "", "case": {}, "w": [], "bb": [], "which": "", "d": [], "full": False, "pts": [],
         "sc": [], "shape": [], "obs": [], "via": "", "how": ""}
    e.update(kw)
    return e


def crash_event(c, why):
    return ev(c["id"], "crash", raised="process: " + why)


CASEKEYS = ("fam", "dim", "m", "L")


def spec_case(c):
    k = {x: c[x] for x in CASEKEYS}
    k["nC"] = [{"k": e["k"], "v": e["v"]} for e in c["nC"]]
    k["w"], k["b"] = c["w"], c["b"]
    return k


def execute(c):
    import jax
    import jax.numpy as jnp

    out = []
    objs, bcs, cases, fns = {}, {}, {}, {}
    keep = []
    bid = c["id"]
    try:
        for s in c["steps"]:
            op, o = s["op"], s["o"]
            cur = s
            if op == "crowd":
                from tfc.utils import BF
                for i in range(o):
                    keep.append((BF.ELMTanh if s["elm"] else BF.CP)(0.0, 1.0 + i, onp.array([-1], dtype=onp.int32), 2 + i % 3))
                out.append(ev(bid, "crowd", o=o))
            elif op == "create":
                cc = dict(s["case"])
                cases[o] = cc
                objs[o], bcs[o] = B.build(cc)
                out.append(ev(bid, "create", o=o, case=spec_case(cc), how=cc["api"] + "/" + cc["backend"]))
            elif op == "set":
                cc = cases[o]
                w, b = onp.array(s["w"], dtype=float), onp.array(s["b"], dtype=float) * B.UNIT.get(cc["fam"], 1.0)
                if "w" in s["k"]:
                    w = w[0] if cc["api"] != "mtfc" else w
                    if s.get("strided"):
                        w = onp.repeat(w, 2, axis=-1)[..., ::2]
                    bcs[o].w = w
                if "b" in s["k"]:
                    bcs[o].b = onp.repeat(b, 2)[::2] if s.get("strided") else b
                cases[o] = dict(cc, w=s["w"], b=s["b"])      # only the unit in which swish values are decoded
                out.append(ev(bid, "set", o=o, w=s["w"], bb=s["b"], which=s["k"]))
            elif op == "get":
                cc = cases[o]
                w = onp.asarray(bcs[o].w).reshape(cc["dim"], -1)
                b = onp.asarray(bcs[o].b).flatten() / B.UNIT.get(cc["fam"], 1.0)
                ok = bool(onp.all(w == onp.rint(w)) and onp.allclose(b, onp.rint(b), atol=1e-9))
                out.append(ev(bid, "get", o=o, w=onp.rint(w).astype(int).tolist(), bb=onp.rint(b).astype(int).tolist(),
                              raised="" if ok else "weights read back are not the ones set"))
            elif op == "compile":
                cc = dict(cases[o], **s["e"])
                if s.get("ad"):
                    from tfc.utils import egrad
                    f0 = B.accessor(dict(cc, d=s["d0"], acc=s["acc"]), objs[o])
                    f = jax.jit(egrad(f0, s["ad"] - 1))
                else:
                    f = jax.jit(B.accessor(dict(cc, acc=s["acc"]), objs[o]))
                if s.get("warm"):
                    f(*[jnp.asarray(x) for x in B.points(dict(cc, pts=s["e"]["pts"]))])
                fns[s["f"]] = (f, o)
                out.append(ev(bid, "compile", o=o, f=s["f"], d=s["e"]["d"], full=s["e"]["full"], how=s["acc"]))
            elif op in ("eval", "run"):
                oo = o if op == "eval" else fns[s["f"]][1]
                cc = dict(cases[oo], **s["e"])
                xs = B.points(cc)
                if op == "eval":
                    if s["via"] == "raw" or cc["api"] == "BF":
                        H = (objs[oo].H(xs[0], cc["d"][0], cc["full"]) if cc["api"] == "BF" else
                             bcs[oo].H(xs[0], cc["d"][0], cc["full"]) if cc["api"] == "utfc" else
                             bcs[oo].H(onp.array(xs), onp.array(cc["d"], dtype=onp.int32), cc["full"]))
                    else:
                        H = B.accessor(dict(cc, acc=s["acc"]), objs[oo])(*[jnp.asarray(x) for x in xs])
                else:
                    H = fns[s["f"]][0](*[jnp.asarray(x) for x in xs])
                H = onp.asarray(H)
                cc["ops"], cc["mul"] = [], [[] for _ in cc["pts"]]
                obs = B.decode_rows(cc, H, list(range(len(cc["pts"])))) if H.ndim == 2 and H.shape[0] == len(cc["pts"]) else []
                out.append(ev(bid, op, o=oo, f=s.get("f", 0), d=cc["d"], full=bool(cc["full"]), pts=cc["pts"],
                              sc=[B.res(int(x)) for x in cc["scale"]], shape=list(H.shape), obs=obs, via=s.get("via", "")))
            elif op == "drop":
                objs.pop(o)
                bcs.pop(o)
                gc.collect()
                out.append(ev(bid, "drop", o=o))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        out.append(ev(bid, "crash", raised=f"{cur['op']}: {type(e).__name__}: {str(e)[:120]}"))
    return out
