"""Evaluates HybridUtfc objects; the columns are handed out to the bases in order.  See spec/TraceHybrid.tla."""
import numpy as onp

from drivers import basis as B

HACC = {0: "H", 1: "dH", 2: "d2H", 3: "d3H", 4: "d4H", 8: "d8H"}


def execute(case):
    import tfc

    parts = case["parts"]
    Ns = [p["N"] for p in parts]
    ev = dict(id=case["id"], Ns=Ns, raised="", cols=0, blocks=[])
    try:
        objs = []
        for p in parts:
            objs.append(objs[p["same"]] if "same" in p else B.build(p)[0])
        h = tfc.HybridUtfc(list(objs))
        if len(set(Ns)) > 1:
            return [ev]
        c0 = dict(parts[0], acc=HACC[parts[0]["d"][0]], path=case["path"])
        xs = B.points(c0)
        H = onp.asarray(B.evaluate(c0, h, xs))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        ev["raised"] = type(e).__name__ + ": " + str(e)[:120]
        return [ev]
    if H.ndim != 2:
        ev["raised"] = "shape " + str(H.shape)
        return [ev]
    ev["cols"] = H.shape[1]
    off = 0
    for k, p in enumerate(parts):
        w = len(B.kept_columns(p)) if k < len(parts) - 1 else max(0, H.shape[1] - off)
        Hk = H[:, off:off + w]
        off += w
        obs = B.decode_rows(p, Hk, list(range(min(len(p["pts"]), H.shape[0]))))
        ev["blocks"].append(B.event(dict(p, id="b"), shape=list(Hk.shape), obs=obs, rows=len(p["pts"]), dtype=str(H.dtype)))
    return [ev]


def crash_event(case, why):
    return dict(id=case["id"], Ns=[1], raised="process: " + why, cols=0, blocks=[])
