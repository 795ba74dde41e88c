"""C20: figures: labels, titles, traces and cameras belong to the panel they were given for; files are what was asked for."""
import os
import select
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main

RULE = ("grids up to 3x3 with empty places, missing titles, twin and 3-D axes in every label form; TLC-simulated histories of views, traces and "
        "sizes replayed on plotly; every file kind.  Non-trivial: more than one panel or an operation after construction")
LAB = ["x", "y", "$\\theta$", "time (s)", "u_1", "A b", "z [m]", "%"]


def grid(rng, nr, nc, tag):
    return [["%s %s%d%d" % (rng.choice(LAB), tag, j, k) for k in range(nc)] for j in range(nr)]


def labels(rng, nr, nc, lib, z):
    c = dict(lib=lib, x=grid(rng, nr, nc, "x"), y=grid(rng, nr, nc, "y"), z=grid(rng, nr, nc, "z") if z else [], twin=[], titles=[])
    if lib == "mpl" and not z and rng.random() < 0.3:
        c["twin"] = grid(rng, nr, nc, "t")
    if rng.random() < 0.6:
        c["titles"] = grid(rng, nr, nc, "T")
        if lib == "mpl" and rng.random() < 0.5:
            for r in c["titles"]:
                for k in range(nc):
                    if rng.random() < 0.35:
                        r[k] = "~"
    if lib == "mpl" and nr * nc > 1 and rng.random() < 0.4:
        j, k = rng.randrange(nr), rng.randrange(nc)
        for m in (c["x"], c["y"], c["z"], c["twin"], c["titles"]):
            if m and (m is not c["titles"] or rng.random() < 0.5):
                m[j][k] = "~"
    forms = ["list", "tuple", "array"]
    if nc == 1:
        forms += ["list1", "tuple1", "array1"]
    if nr * nc == 1:
        forms += ["str"] * 3
    c["form"] = rng.choice(forms)
    if c["form"] == "str" and any(m and m[0][0] == "~" for m in (c["titles"],)):
        c["titles"] = []
    return c


KINDS3 = ["Surface", "Scatter3d", "Volume"]
KINDS2 = ["Scatter", "Histogram", "Contour", "Box", "Violin"]


def norm(rng, nr, nc):
    n = rng.randint(1, 4)
    types = [rng.choice(["Surface", "Volume"]) for _ in range(n)]
    want = rng.choice([["Surface"], ["Volume"], ["Surface", "Volume"]])
    given = rng.random() < 0.5
    name = "surfacecolor"
    if not given:
        # the data attribute belongs to one type only
        want = rng.choice([["Surface"], ["Volume"]])
        name = {"Surface": "surfacecolor", "Volume": "value"}[want[0]]
        if want[0] not in types:
            types[0] = want[0]
    lim = lambda: [rng.choice([0, rng.randint(-50, 50)])] if rng.random() < 0.5 else []
    cmin, cmax = lim(), lim()
    if given and not cmin and not cmax:
        cmax = [7]
    return dict(op="norm", types=types, want=want, given=given, cmin=cmin, cmax=cmax, name=name, arr=rng.random() < 0.6, before=[[lim(), lim()] for _ in types],
                data=[[rng.randint(-40, 40) for _ in range(rng.randint(1, 4))] for _ in types])


def size(rng, lib, screen):
    u = rng.choice(["px", "in", "mm", "full"] if lib == "plotly" else ["in", "full"])
    if not screen and (u == "full" or (lib == "plotly" and u != "px")):
        u = "px" if lib == "plotly" else "in"
    lo, hi = dict(px=(200, 900), mm=(20, 300)).get(u, (1, 12))
    return dict(op="size", u=u, w=rng.randint(lo, hi), g=rng.randint(lo, hi))


def display():
    """a virtual screen for the functions that ask for the size of the screen"""
    rd, wr = os.pipe()
    try:
        p = subprocess.Popen(["Xvfb", "-displayfd", str(wr), "-screen", "0", "1300x1000x24", "-dpi", "90", "-nolisten", "tcp", "-noreset", "-maxclients", "512"], pass_fds=[wr], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except OSError:
        p = None
    os.close(wr)
    ready = select.select([rd], [], [], 20)[0] if p else []
    n = os.read(rd, 20).decode().strip() if ready else ""
    os.close(rd)
    return p, n


def check(r):
    p, n = display()
    try:
        if n:
            os.environ["DISPLAY"] = ":" + n
        return body(r, bool(n))
    finally:
        if p:
            p.kill()
            p.wait()


def body(r, screen):
    r.model("Panels", "PanelsDeep.cfg" if r.thorough else "Panels.cfg", workers=8)
    r.build()
    rng = r.rng
    cases = []
    for b in r.behaviours("Panels", "PanelsSim.cfg", 600 if r.thorough else 120, 9):
        z = any(e["op"] == "view" for e in b) or rng.random() < 0.5
        c = labels(rng, b[0]["nr"], b[0]["nc"], "plotly", z)
        c["ops"] = [dict(op="new")]
        for e in b[1:]:
            e = dict(e)
            if e["op"] == "view":
                e["bare"] = rng.random() < 0.5
            elif e["op"] == "size":
                e = size(rng, "plotly", screen)
            elif e["op"] == "draw":
                e["kind"] = rng.choice(KINDS3 if z else KINDS2)
            c["ops"].append(e)
        cases.append(c)
    for k in range(300 if r.thorough else 90):
        nr, nc = rng.randint(1, 3), rng.randint(1, 3)
        if k % 3 == 0:
            c = labels(rng, nr, nc, "plotly", True)
            c["ops"] = [dict(op="new")] + [norm(rng, nr, nc) for _ in range(2)]
        elif k % 3 == 1:
            c = labels(rng, nr, nc, "plotly", False)
            c["ops"] = [dict(op="new")] + [dict(op="draw", j=rng.randint(1, nr), k=rng.randint(1, nc), kind=rng.choice(KINDS2)) for _ in range(3)]
        else:
            c = labels(rng, nr, nc, "plotly", rng.random() < 0.5)
            typed = rng.random() < 0.5
            c["ops"] = [dict(op="new"), dict(op="save", stem=rng.choice(["fig", "a.b", "outhtml", "html"]), suffix="" if typed else "html", type="html" if typed else "")]
        cases.append(c)
    for k in range(700 if r.thorough else 170):
        nr, nc = rng.randint(1, 3), rng.randint(1, 3)
        c = labels(rng, nr, nc, "mpl", rng.random() < 0.3)
        c["ops"] = [dict(op="new")]
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            o = rng.choice(["size", "save", "save", "pickle", "anim"])
            if o == "size":
                c["ops"].append(size(rng, "mpl", screen))
            elif o == "save":
                t = rng.choice(["", "", "png", "pdf", "ps", "eps", "svg"])
                c["ops"].append(dict(op="save", stem=rng.choice(["fig", "a.b", "x_1"] + ([t, "my" + t, "png", "fig.dat"] if t else [])), suffix="" if t else rng.choice(["png", "pdf", "ps", "eps", "svg", "dat", ""]), type=t,
                                     tr=rng.random() < 0.5, all=rng.random() < 0.25))
                if c["ops"][-1]["stem"] == "a.b" and not c["ops"][-1]["suffix"] and not t:
                    c["ops"][-1]["stem"] = "fig"
            elif o == "pickle":
                c["ops"].append(dict(op="pickle"))
            elif nr * nc <= 2:
                c["ops"].append(dict(op="anim", n=rng.randint(0, 3), save=rng.random() < 0.7, fresh=rng.random() < 0.5, named=rng.random() < 0.5))
        if c["x"] and all(v == "~" for row in c["x"] for v in row):
            continue
        if any(o["op"] == "anim" for o in c["ops"]) and c["x"][0][0] == "~":
            continue
        cases.append(c)
    for c in cases:
        if len(c["ops"]) > 1 or len(c["x"]) * len(c["x"][0]) > 1:
            r.nontrivial.add(str(c))
    rng.shuffle(cases)
    tr = r.drive("plots", cases)
    r.validate(tr, "TracePlot", chunk=400, group="b")
    return r.finish(RULE)


if __name__ == "__main__":
    main("C20", check)
