"""Drives MakePlot (matplotlib) and PlotlyMakePlot and reads the figures back.  See spec/TracePlot.tla."""
import time
import contextlib
import io
import math
import os
import pickle
import shutil
import tempfile

os.environ["MPLBACKEND"] = "Agg"
import numpy as onp

SQ3 = math.sqrt(3.0)
NO = "~"


def none(m):
    return [[None if v == NO else v for v in r] for r in m]


def shaped(m, form):
    """the label argument as the user writes it"""
    m = none(m)
    if form == "str":
        return m[0][0]
    if form in ("list1", "tuple1"):
        v = [r[0] for r in m]
        return v if form == "list1" else tuple(v)
    if form == "array":
        return onp.array(m)
    if form == "array1":
        return onp.array([r[0] for r in m])
    if form == "tuple":
        return tuple(tuple(r) for r in m)
    return m


def kind(path):
    b = open(path, "rb").read(400)
    if b.startswith(b"\x89PNG"):
        return "png"
    if b.startswith(b"%PDF"):
        return "pdf"
    if b.startswith(b"%!PS-Adobe") and b"EPSF" in b[:40]:
        return "eps"
    if b.startswith(b"%!PS"):
        return "ps"
    if b"<svg" in b or b"DOCTYPE svg" in b:
        return "svg"
    if b"<html" in b.lower():
        return "html"
    return "?"


def background(path):
    import matplotlib.image as mi

    a = mi.imread(path)
    return "solid" if a.shape[2] == 3 or a[0, 0, 3] == 1 else "clear" if a[0, 0, 3] == 0 else "half"


def mpl_panels(p, case):
    out = []
    for i, ax in enumerate(p.ax):
        ss = ax.get_subplotspec()
        is3d = hasattr(ax, "get_zlabel")
        out.append(dict(row=ss.rowspan.start + 1, col=ss.colspan.start + 1, x=ax.get_xlabel(), y=ax.get_ylabel(), z=ax.get_zlabel() if is3d else NO,
                        twin=p.twinAx[i].get_ylabel() if case["twin"] else NO, title=ax.get_title() or NO, nr=ss.get_gridspec().nrows, nc=ss.get_gridspec().ncols))
        if case["twin"]:
            t = p.twinAx[i]
            if not ax.get_shared_x_axes().joined(ax, t):
                out[-1]["twin"] = "not twin"
    return out


def plotly_panels(p, case):
    nr, nc = len(case["x"]), len(case["x"][0])
    out = []
    lay = p.fig.layout
    ann = [(a.text, a.x, a.y) for a in (lay.annotations or ())]
    used = 0
    for r in range(nr):
        for c in range(nc):
            if nr * nc == 1:
                sub = lay.scene if case["z"] else None
                xa, ya = (sub.xaxis, sub.yaxis) if sub else (lay.xaxis, lay.yaxis)
                title = lay.title.text
                if ann:
                    title = "annotation"
            else:
                sub = p.fig.get_subplot(r + 1, c + 1)
                xa, ya = (sub.xaxis, sub.yaxis) if case["z"] else sub
                dx, dy = (sub.domain.x, sub.domain.y) if case["z"] else (xa.domain, ya.domain)
                hit = [t for t, ax_, ay in ann if abs(ax_ - (dx[0] + dx[1]) / 2) < 1e-6 and abs(ay - dy[1]) < 1e-6]
                used += len(hit)
                title = hit[0] if len(hit) == 1 else None
            out.append(dict(row=r + 1, col=c + 1, x=xa.title.text or NO, y=ya.title.text or NO, z=(sub.zaxis.title.text or NO) if case["z"] else NO, twin=NO,
                            title=title or NO, nr=nr, nc=nc))
    if nr * nc > 1 and used != len(ann):
        out[0]["title"] = "stray"
    return out


def dec(v):
    """v*4 = A + B sqrt 3"""
    for B in range(-4, 5):
        A = v * 4 - B * SQ3
        if abs(A - round(A)) < 1e-9 and abs(A) < 5:
            return [round(A), B]
    return [99, 99]


def cams(p, dists, nr, nc):
    out = []
    for r in range(nr):
        for c in range(nc):
            sc = p.fig.layout.scene if nr * nc == 1 else p.fig.get_subplot(r + 1, c + 1)
            eye = sc.camera.eye
            if eye.x is None:
                out.append([])
                continue
            v = onp.array([eye.x, eye.y, eye.z], dtype=float)
            n = math.sqrt(float(v @ v))
            d = -1 if abs(n - 2.5) < 1e-9 else round(n) if abs(n - round(n)) < 1e-9 else 99
            out.append([[dec(t / n) for t in v], d])
    return out


def execute(case):
    import matplotlib.pyplot as plt

    lib = case["lib"]
    scratch = tempfile.mkdtemp(dir=os.environ["TFC_SCRATCH"])
    out = []
    p = None
    try:
        for op in case["ops"]:
            ev = dict(op, b=case["id"], lib=lib, raised="")
            out.append(ev)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    p = one(case, op, ev, p, lib, scratch)
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, MemoryError)):
                    raise
                if type(e).__name__ == "TclError" and no_screen():
                    out.pop()                # the sandbox's virtual screen is gone: nothing to be learnt about the code
                    break
                ev["raised"] = type(e).__name__ + ": " + str(e)[:80]
                break
    finally:
        plt.close("all")
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def no_screen():
    """True when tkinter itself cannot open a window here."""
    import tkinter as tk

    try:
        tk.Tk().destroy()
    except tk.TclError:
        return True
    return False


def one(case, op, ev, p, lib, scratch):
    nr, nc = len(case["x"]), len(case["x"][0])
    if op["op"] == "new":
        kw = {}
        for k, a in (("titles", "titles"), ("z", "zlabs"), ("twin", "twinYlabs")):
            if case[k]:
                kw[a] = shaped(case[k], case["form"])
            ev[k] = case[k]
        ev.update(x=case["x"], y=case["y"], panels=[])
        if lib == "mpl":
            from tfc.utils import MakePlot
            p = MakePlot(shaped(case["x"], case["form"]), shaped(case["y"], case["form"]), **kw)
            ev["panels"] = mpl_panels(p, case)
        else:
            from tfc.utils.PlotlyMakePlot import MakePlot
            p = MakePlot(shaped(case["x"], case["form"]), shaped(case["y"], case["form"]), **kw)
            ev["panels"] = plotly_panels(p, case)
    elif op["op"] == "view":
        kw = {} if op["d"] == 0 else dict(viewDistance=float(op["d"]))
        if nr * nc == 1 and op["bare"]:
            p.view(float(op["az"]), float(op["el"]), **kw)
        else:
            p.view(float(op["az"]), float(op["el"]), row=op["j"], col=op["k"], **kw)
        ev["cams"] = cams(p, None, nr, nc)
    elif op["op"] == "draw":
        n0 = len(p.fig.data)
        v = onp.array([1.0, 2.0])
        data = {"Surface": dict(z=onp.eye(2)), "Scatter3d": dict(x=v, y=v, z=v), "Scatter": dict(x=v, y=v), "Histogram": dict(x=v), "Contour": dict(z=onp.eye(2)),
                "Box": dict(y=v), "Violin": dict(y=v), "Volume": dict(x=v, y=v, z=v, value=v)}[op["kind"]]
        kw = {} if nr * nc == 1 else dict(row=op["j"], col=op["k"])
        getattr(p, op["kind"])(**data, **kw)
        t = p.fig.data[-1]
        ev["kind"] = len(p.fig.data) == n0 + 1 and type(t).__name__ == op["kind"] and all(onp.array_equal(onp.asarray(t[k]), onp.asarray(w)) for k, w in data.items())
        pos = [0, 0]
        for r in range(nr):
            for c in range(nc):
                if nr * nc == 1:
                    pos = [1, 1]
                    continue
                sub = p.fig.get_subplot(r + 1, c + 1)
                if case["z"]:
                    if p.fig.layout[t.scene or "scene"] is sub or (t.scene or "scene") == sub.plotly_name:
                        pos = [r + 1, c + 1]
                elif (t.xaxis or "x").replace("x", "xaxis") == sub[0].plotly_name and (t.yaxis or "y").replace("y", "yaxis") == sub[1].plotly_name:
                    pos = [r + 1, c + 1]
        ev["panel"] = pos
    elif op["op"] == "size":
        ev["scr"] = [1, 1, 1, 1]
        if op["u"] == "full" or (lib == "plotly" and op["u"] != "px"):
            for _ in range(20):              # a screen that is busy for a moment
                if not no_screen():
                    break
                time.sleep(0.5)
        if op["u"] == "full":
            p.FullScreen()
        elif lib == "mpl":
            p.PartScreen(op["w"], op["g"])
        else:
            p.PartScreen(op["w"], op["g"], **({} if op["u"] == "in" and op["w"] % 2 else dict(units=op["u"])))
        w, g = (p.fig.get_size_inches() * p.fig.get_dpi()) if lib == "mpl" else (p.fig.layout.width, p.fig.layout.height)
        ev["got"] = [round(float(w)), round(float(g))]
        ev["dpi"] = round(float(p.fig.get_dpi())) if lib == "mpl" else 0
        if op["u"] == "full" or (lib == "plotly" and op["u"] != "px"):
            import tkinter as tk

            if tk._default_root is not None:
                tk._default_root.destroy()
            r = tk.Tk()
            ev["scr"] = [r.winfo_screenwidth(), r.winfo_screenheight(), r.winfo_screenmmwidth(), r.winfo_screenmmheight()]
            r.destroy()
    elif op["op"] == "norm":
        p.fig.data = []
        q = nr * nc == 1
        for t, d, b in zip(op["types"], op["data"], op["before"]):
            kw = {} if q else dict(row=1, col=1)
            lim = {}
            if b[0]:
                lim["cmin"] = b[0][0]
            if b[1]:
                lim["cmax"] = b[1][0]
            a = onp.array(d, dtype=float)
            if t == "Surface":
                p.Surface(surfacecolor=a.reshape(1, -1) if op["arr"] else [list(a)], z=onp.zeros((1, len(d))), **lim, **kw)
            else:
                z = onp.zeros(len(d))
                p.Volume(x=z, y=z, z=z, value=a, **lim, **kw)
        kw = {}
        if op["given"]:
            if op["cmin"]:
                kw["cmin"] = op["cmin"][0]
            if op["cmax"]:
                kw["cmax"] = op["cmax"][0]
        else:
            kw["data"] = op["name"]
        p.NormalizeColorScale(types=list(op["want"]), **kw)
        ev["lims"] = [[[] if t.cmin is None else [round(float(t.cmin))], [] if t.cmax is None else [round(float(t.cmax))]] for t in p.fig.data]
    elif op["op"] == "save":
        d = tempfile.mkdtemp(dir=scratch)
        name = op["stem"] + ("." + op["suffix"] if op["suffix"] and not op["type"] else "")
        kw = dict(fileType=op["type"]) if op["type"] else {}
        if lib == "mpl":
            kw["transparent"] = op["tr"]
            fn = p.saveAll if op["all"] else p.save
        else:
            fn = p.save
        fn(os.path.join(d, name), **kw)
        fs = sorted(os.listdir(d))
        if lib == "mpl" and op["all"]:
            pk = name + ".pickle"
            if pk in fs:
                fs.remove(pk)
                if mpl_panels(pickle.load(open(os.path.join(d, pk), "rb")), case) != mpl_panels(p, case):
                    fs.append("bad pickle")
            else:
                fs.append("no pickle")
        ev["files"] = fs
        ev["kind"] = kind(os.path.join(d, fs[0])) if fs else "none"
        ev["back"] = background(os.path.join(d, fs[0])) if ev["kind"] == "png" else "any"
    elif op["op"] == "pickle":
        d = tempfile.mkdtemp(dir=scratch)
        p.savePickle(os.path.join(d, "fig"))
        ev["file"] = os.listdir(d) == ["fig.pickle"]
        q = pickle.load(open(os.path.join(d, "fig.pickle"), "rb"))
        ev["panels"] = mpl_panels(q, case)
    elif op["op"] == "anim":
        d = os.path.join(scratch, "movie") if op["fresh"] else tempfile.mkdtemp(dir=scratch)
        seen = []

        def gen():
            for k in range(op["n"]):
                seen.append(k)
                p.ax[0].set_title("frame %d" % k)
                yield
        p.animate(gen, outDir=d, save=op["save"], delay=1, **(dict(fileName="f") if op["named"] else {}))
        fs = sorted(os.listdir(d)) if os.path.exists(d) else []
        ev["want"] = [("f" if op["named"] else "images") + "%06d.png" % k for k in range(op["n"])] if op["save"] else []
        ev["frames"] = fs
        ev["same"] = True
        for k, f in enumerate(fs[: op["n"]]):
            p.ax[0].set_title("frame %d" % k)
            p.save(os.path.join(scratch, "again"), fileType="png")
            ev["same"] = ev["same"] and open(os.path.join(scratch, "again.png"), "rb").read() == open(os.path.join(d, f), "rb").read()
        ev["kinds"] = all(kind(os.path.join(d, f)) == "png" for f in fs) and seen == list(range(op["n"]))
        p.ax[0].set_title("" if not case["titles"] or none(case["titles"])[0][0] is None else case["titles"][0][0])
    return p


def crash_event(case, why):
    return dict(b=case["id"], op="new", lib=case["lib"], raised=why)
