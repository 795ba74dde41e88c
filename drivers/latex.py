"""Writes LaTeX tables and reads them back as LaTeX would.  See spec/Latex.tla."""
import re

import numpy as onp

NUM = re.compile(r"([+-]?)(\d+)(?:\.(\d+))?(?:([eE])([+-]\d+))?")


def cell(text, form):
    text = text.strip()
    o = dict(text=text, ok=False, D=0, x=0, k=-1, e="", plus=False)
    t = text
    if t.startswith(form["pre"]) and t.endswith(form["post"]):
        t = t[len(form["pre"]):len(t) - len(form["post"])].strip()
        m = NUM.fullmatch(t)
        if m:
            frac = m.group(3) or ""
            D = int(m.group(2) + frac)
            if D < 2 ** 30 and (m.group(5) is None or len(m.group(2)) == 1):
                o.update(ok=True, D=-D if m.group(1) == "-" else D, k=len(frac), e=m.group(4) or "", x=int(m.group(5) or 0), plus=m.group(1) == "+")
    return o


def execute(case):
    from tfc.utils import Latex

    form = case["form"]
    ev = dict(id=case["id"], arr=case["arr"], form=dict(t=form["t"], k=form["k"], plus=form["flag"] == "+"), hasCol=case["col"] is not None, hasRow=case["row"] is not None,
              col=case["col"] or [], row=case["row"] or [], raised="", frame=True, cols=0, items=[])
    a = onp.array([[float("%de%d" % (n, q)) if q else n / d for n, d, q in r] for r in case["arr"]], dtype=float)
    if case["layout"] == "F":
        a = onp.asfortranarray(a)
    elif case["layout"] == "strided":
        w = onp.full((2 * a.shape[0], a.shape[1]), 7.5)
        w[::2] = a
        a = w[::2]
    kw = {}
    if case["col"] is not None:
        kw["colHeader"] = list(case["col"])
    if case["row"] is not None:
        kw["rowHeader"] = list(case["row"])
    spec = form["pre"].replace("%", "%%") + "%" + form["flag"] + "." + str(form["k"]) + form["t"] + form["post"].replace("%", "%%")
    if not case["default"]:
        kw["form"] = spec
    try:
        txt = Latex.table.SimpleTable(a, **kw)
    except BaseException as e:
        ev["raised"] = type(e).__name__ + ": " + str(e)[:80]
        return [ev]
    m = re.fullmatch(r"\s*\\begin\{center\}\s*\\begin\{tabular\}\{([|c\s]*)\}(.*)\\end\{tabular\}\s*\\end\{center\}\s*", txt, re.S)
    if not m:
        ev["frame"] = False
        return [ev]
    bars = re.sub(r"\s", "", m.group(1))
    ev["cols"] = bars.count("c")
    ev["frame"] = bars == "|c" * ev["cols"] + "|"
    cur = ""
    for t in re.split(r"(\\\\|\\hline(?![A-Za-z]))", m.group(2)):
        if t == "\\\\":
            ev["items"].append(dict(t="row", cells=[cell(c, form) for c in cur.split("&")]))
            cur = ""
        elif t == "\\hline":
            if cur.strip():
                ev["items"].append(dict(t="loose", cells=[]))
                cur = ""
            ev["items"].append(dict(t="hline", cells=[]))
        else:
            cur += t
    if cur.strip():
        ev["items"].append(dict(t="loose", cells=[]))
    return [ev]


def crash_event(case, why):
    return dict(id=case["id"], arr=[[[0, 1, 0]]], form=dict(t="f", k=0, plus=False), hasCol=False, hasRow=False, col=[], row=[], raised=why, frame=True, cols=0, items=[])
