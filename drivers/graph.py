"""Builds ComponentConstraintGraphs and reads back what SaveGraphs wrote.  See spec/TraceGraph.tla."""
import contextlib
import html
import io
import os
import re
import shutil
import tempfile


def read_svg(path, N, names):
    """nodes and arcs of a rendered graph"""
    txt = open(path).read()
    nodes, arcs = [], []
    for m in re.finditer(r'<g id="[^"]*" class="(node|edge)">(.*?)</g>\s*(?=<g |</g>|<!--)', txt, re.S):
        kind, body = m.groups()
        title = html.unescape(re.search(r"<title>(.*?)</title>", body, re.S).group(1))
        texts = [html.unescape(t) for t in re.findall(r"<text[^>]*>(.*?)</text>", body, re.S)]
        if kind == "node":
            nodes.append(N.index(title) + 1 if title in N and texts == [title] else 0)
        else:
            a, b = title.split("->")
            lab = texts[0] if len(texts) == 1 else ""
            arcs.append([N.index(a) + 1, N.index(b) + 1, names.index(lab) + 1 if lab in names else 0])
    return nodes, arcs


def execute(case):
    from tfc.utils import ComponentConstraintGraph

    N = list(case["N"])
    know = N + ["zz"]
    E = [dict(name=case["names"][k], node0=know[a - 1], node1=know[b - 1]) for k, (a, b) in enumerate(case["E"])]
    ev = dict(op=case["op"], n=len(N), E=case["E"], raised="", targets=[], good=[], all=case.get("all", False), graphs=[], links=[], files=True)
    out = tempfile.mkdtemp(dir=os.environ["TFC_SCRATCH"])
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            g = ComponentConstraintGraph(N, E)
        ev["targets"] = [[int(v) for v in t] for t in g.targets]
        ev["good"] = [ev["targets"][int(j)] for j in g.goodTargets]
        if case["op"] == "save":
            d = os.path.join(out, *case["dir"])
            g.SaveGraphs(d, allGraphs=case["all"], savePDFs=case["pdf"])
            main = open(os.path.join(d, "main.html")).read()
            links = sorted(set(int(k) for k in re.findall(r'href="htmlFiles/tree(\d+)\.html"', main)))
            ev["links"] = links
            have = sorted(int(m.group(1)) for m in (re.fullmatch(r"tree(\d+)\.svg", f) for f in os.listdir(os.path.join(d, "dotFiles"))) if m)
            ok = "dotFiles/main.svg" in main and 'usemap="#main"' in main and ('id="main"' in main) and os.path.exists(os.path.join(d, "dotFiles", "main.svg"))
            for k in have:
                nodes, arcs = read_svg(os.path.join(d, "dotFiles", f"tree{k}.svg"), N, case["names"])
                ev["graphs"].append(dict(nodes=nodes, arcs=arcs))
                p = os.path.join(d, "htmlFiles", f"tree{k}.html")
                if not os.path.exists(p):
                    ok = False
                    continue
                t = open(p).read()
                ok = ok and f'"../dotFiles/tree{k}.svg"' in t and f'usemap="#tree{k}"' in t and f'id="tree{k}"' in t
                ok = ok and os.path.exists(os.path.join(d, "dotFiles", f"tree{k}.pdf")) == case["pdf"]
            hs = [f for f in os.listdir(os.path.join(d, "htmlFiles"))] if have else []
            ok = ok and len(hs) == len(have) and have == list(range(len(have)))
            ev["files"] = bool(ok)
    except BaseException as e:
        ev["raised"] = type(e).__name__ + (": " + str(e)[:60] if not isinstance(e, SystemExit) else "")
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return [ev]


def crash_event(case, why):
    return dict(op=case["op"], n=len(case["N"]), E=case["E"], raised=why, targets=[], good=[], all=False, graphs=[], links=[], files=True)
