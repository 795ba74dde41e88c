"""Makes requests, sensible or not, of the public interface and records whether they were served.  See spec/TraceRequests.tla.

Refused: SystemExit or an exception, and nothing is returned.  Setting the weights of a compiled basis is done in a forked child, since
a refusal there ends the process."""
import os
import signal

os.environ["MPLBACKEND"] = "Agg"
import numpy as onp


def nc(e, case, jnp):
    def one(c):
        if c["k"] == "int":
            return c["v"][0]
        return list(c["v"])
    form = case.get("form", "list")
    if e["op"] == "utfc" or not e["nested"]:
        v = one(e["nC"][0])
        if isinstance(v, int):
            return onp.int64(v) if form == "np" else v
        return {"list": list, "tuple": tuple, "np": lambda q: onp.array(q, dtype=int), "jnp": lambda q: jnp.array(q, dtype=int)}[form](v)
    vs = [one(c) for c in e["nC"]]
    if form == "jnp" and all(isinstance(v, int) for v in vs):
        return jnp.array(vs)
    if form == "jnp":
        vs = [v if isinstance(v, int) else jnp.array(v) for v in vs]
    return tuple(vs) if form == "tuple" else vs


def vec(n, base, form, jnp):
    if n < 0:
        return None
    v = [base + 0.5 * k for k in range(n)]
    return jnp.array(v) if form == "jnp" else onp.array(v) if form == "np" else tuple(v) if form == "tuple" else v


def child(fn):
    """fn in a forked child: served, refused (the process ended or raised) or hang."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(30)
        try:
            os.write(w, b"served" if fn() else b"changed")
        except BaseException:
            os.write(w, b"refused")
        os._exit(0)
    os.close(w)
    out = os.read(r, 100).decode()
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if out:
        return out
    if os.WIFSIGNALED(st):
        return "signal %d" % os.WTERMSIG(st)
    return "refused" if os.WEXITSTATUS(st) else "ended silently"


def serve(e, case):
    import jax
    import jax.numpy as jnp
    import tfc

    op, form = e["op"], case.get("form", "list")
    if op == "utfc":
        u = tfc.utfc(4, nc(e, case, jnp), e["deg"], basis=e["basis"], x0=0.0, xf=2.0, backend=e["backend"])
        e["shape"] = list(u.H(u.x).shape)
    elif op == "mtfc":
        n = [2] * e["nn"]
        n = jnp.array(n) if form == "jnp" else n
        kw = {} if e["nx0"] < 0 else dict(x0=vec(e["nx0"], 0.0, form, jnp))
        u = tfc.mtfc(n, nc(e, case, jnp), e["deg"], dim=e["dim"], basis=e["basis"], xf=vec(e["nxf"], 1.0, form, jnp), backend=e["backend"], **kw)
        e["shape"] = list(u.H(*u.x).shape)
    elif op == "eval":
        if e["api"] == "utfc":
            u = tfc.utfc(4, 1, 2, basis=case["basis"], x0=0.0, xf=2.0, backend=e["backend"])
        else:
            u = tfc.mtfc([2] * e["dim"], 1 if case["basis"].startswith("ELM") else [1] * e["dim"], 2, dim=e["dim"], basis=case["basis"], x0=[0.0] * e["dim"], xf=[2.0] * e["dim"], backend=e["backend"])
        f = getattr(u, case["acc"])
        xs = [onp.linspace(0.0, 1.0, n * e["cols"]) for n in e["lens"]]
        if e["cols"] > 1:
            xs = [x.reshape(-1, e["cols"]) for x in xs]
        if e["complex"]:
            xs = [x + 0.25j for x in xs]
        if case["jx"]:
            xs = [jnp.asarray(x) for x in xs]
        H = (jax.jit(f) if e["path"] == "jit" else f)(*xs)
        e["shape"] = list(onp.shape(onp.asarray(H)))
    elif op == "weights":
        if e["api"] == "utfc":
            u = tfc.utfc(4, 1, e["m"] - 1, basis=case["basis"], x0=0.0, xf=2.0, backend=e["backend"])
        else:
            u = tfc.mtfc([2] * e["dim"], 1, e["m"] - 1, dim=e["dim"], basis=case["basis"], x0=[0.0] * e["dim"], xf=[2.0] * e["dim"], backend=e["backend"])
        a = onp.arange(1.0, 1 + onp.prod(e["size"])).reshape(e["size"])

        def fn():
            setattr(u.basisClass, e["what"], a)
            return onp.array_equal(onp.asarray(getattr(u.basisClass, e["what"])).ravel(), a.ravel())
        return child(fn)
    elif op == "graph":
        from tfc.utils import ComponentConstraintGraph
        names = ["u", "v", "w", "p", "q"]
        ComponentConstraintGraph(names[: e["nodes"]], [dict(name="e%d" % k, node0=names[a - 1], node1=names[b - 1]) for k, (a, b) in enumerate(e["edges"])])
    elif op == "hybrid":
        h = tfc.HybridUtfc([tfc.utfc(n, 1, 2, x0=0.0, xf=1.0) for n in e["Ns"]])
        h.H(onp.array([0.5]))
    elif op == "method":
        import tfc.utils as tu
        f = lambda xi: 2.0 * xi - jnp.array([1.0, 4.0])
        z = jnp.zeros(2)
        if e["fn"] == "LS":
            x = tu.LS(z, f, method=e["method"])
        elif e["fn"] == "LsClass":
            x = tu.LsClass(z, f, method=e["method"]).run(z)
        elif e["fn"] == "NLLS":
            x = tu.NLLS(z, f, method=e["method"])[0]
        else:
            x = tu.NllsClass(z, f, method=e["method"]).run(z)[0]
        if not onp.allclose(x, [0.5, 2.0]):
            return "wrong"
    elif op == "print":
        import sympy as sp
        from tfc.utils import CeSolver
        x = sp.Symbol("x")
        g = sp.Function("g")
        c = CeSolver([lambda u: u.subs(x, 0)], [1], [1], g(x))
        c.print_type = e["ptype"]
        if c.print_type != e["ptype"]:
            return "not set"
    elif op == "labels":
        mk = {"str": lambda s: s, "list": lambda s: [[s]], "tuple": lambda s: ((s,),), "array": lambda s: onp.array([[s]]), "int": lambda s: 3, "dict": lambda s: {s: s}, "absent": lambda s: None}
        a = [mk[t](s) for t, s in zip(e["types"], ("x", "y", "T", "z"))]
        if e["lib"] == "mpl":
            from tfc.utils import MakePlot
            import matplotlib.pyplot as plt
            try:
                MakePlot(a[0], a[1], titles=a[2], zlabs=a[3])
            finally:
                plt.close("all")
        else:
            from tfc.utils.PlotlyMakePlot import MakePlot
            MakePlot(a[0], a[1], titles=a[2], zlabs=a[3])
    elif op == "view":
        from tfc.utils.PlotlyMakePlot import MakePlot
        lab = [["a"]] * e["rows"]
        p = MakePlot(lab, lab, zlabs=lab) if e["threeD"] else MakePlot(lab, lab)
        p.view(30.0, 30.0, row=1, col=1)
    return "served"


def execute(case):
    e = dict(case["req"], id=case["id"], out="", shape=[])
    try:
        e["out"] = serve(e, case)
    except BaseException as x:
        if isinstance(x, (KeyboardInterrupt, MemoryError)):
            raise
        e["out"], e["how"] = "refused", type(x).__name__ + ": " + str(x)[:60]
    return [e]


def crash_event(case, why):
    return dict(case["req"], id=case["id"], out=why, shape=[])
