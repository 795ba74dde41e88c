"""Runs histories of operations on tfc.utils.CeSolver and records what reads return.

A polynomial is a list of terms [a, b, num, den] (x^a y^b); the free function g(x, y) is replaced by the case's polynomial G
before an item is projected on exact residues.  Two harmless re-parametrisations widen the inputs: `pi` measures the solver's
variable in units of pi, `emb` writes the data in the other variable through cos/exp; `sym` keeps the constraint points symbolic;
`pip` makes them multiples of pi.
"""
import sympy as sp
from fractions import Fraction

PR = (46337, 46327)
EMB = {"cos": sp.cos, "exp": sp.exp, "sqrt": sp.sqrt, "log": sp.log, "sin": sp.sin, "tan": sp.tan, "atan": sp.atan, "sinh": sp.sinh}
INV = {"cos": sp.acos, "exp": sp.log, "sqrt": lambda b: b**2, "log": sp.exp, "sin": sp.asin, "tan": sp.atan, "atan": sp.tan, "sinh": sp.asinh}


class NotPoly(Exception):
    pass


class SympyFails(Exception):
    """sympy itself cannot integrate the (well-formed) argument of a constraint: its ordering of Subs terms breaks."""


def res(q):
    return [int(q.p) * pow(int(q.q), -1, p) % p for p in PR]


class H:
    def __init__(self, case):
        self.case = case
        self.x, self.y = (sp.Symbol(n) for n in case.get("vars", ["x", "y"]))
        self.g = sp.Function(case.get("fname", "g"))
        self.pi = case.get("pi", 0)      # variable index whose unit is pi (0: none)
        self.emb = case.get("emb", "")   # how the other variable enters the data
        self.sym = case.get("sym", False)
        self.syms = {}
        self.sol = [None, None]
        self.free = self.g(self.x, self.y) if not case.get("flip") else self.g(self.y, self.x)

    def var(self, v):
        return (self.x, self.y)[v - 1]

    def mono(self, v, e):
        z = self.var(v)
        if self.pi == v:
            return (z / sp.pi) ** e
        if self.emb and self.pi != v and v != self.case["v"][0]:
            return EMB[self.emb](z) ** e
        return z**e

    def poly(self, ts):
        return sp.Add(*[sp.Rational(n, d) * self.mono(1, a) * self.mono(2, b) for a, b, n, d in ts]) if ts else sp.Integer(0)

    def num(self, q, v):
        r = sp.Rational(*q)
        if self.sym:
            nm = "p" + "".join(str(q[0]).replace("-", "m")) + "_" + str(q[1])
            s = sp.Symbol(nm)
            self.syms[s] = r
            r = s
        if self.case.get("pip"):
            # the points are multiples of pi, for which the projection takes a rational stand-in
            rho = sp.Rational(*self.case["pip"])
            self.syms[sp.pi] = rho
            r = r / rho * sp.pi
        return r * sp.pi if self.pi == v else r

    def functional(self, v, ts):
        z = self.var(v)
        par = [(t["k"], sp.Rational(*t["c"]), t["o"], self.num(t["a"], v), self.num(t["b"], v) if t["k"] == "int" else None) for t in ts]
        unit = sp.pi if self.pi == v else sp.Integer(1)

        def f(u):
            r = []
            for k, c, o, a, b in par:
                if k == "pt":
                    w = sp.diff(u, z, o) if o else u
                    r.append(c * unit**o * w.subs(z, a))
                else:
                    try:
                        r.append(c / unit * sp.integrate(u, (z, a, b)))
                    except TypeError as e:
                        if "BooleanAtom" in str(e) and sp.sympify(u).has(self.g):
                            raise SympyFails()
                        raise
            return sp.Add(*r)

        return f

    def cont(self, xs):
        return tuple(xs) if self.case.get("tuple") else list(xs)

    def given(self, i, d):
        base = {"none": lambda: 0, "free": lambda: self.free, "own": lambda: self.sol[i].ce, "other": lambda: self.sol[1 - i].ce}[d["m"]]()
        return sp.Rational(*d["c"]) * base + self.poly(d["p"])

    # projections
    def close(self, e):
        """Exact polynomial for an expression in g."""
        G = self.poly(self.case["G"])
        e = sp.sympify(e)
        x, y = self.x, self.y
        e = e.replace(self.g, (lambda a, b: G.subs({x: a, y: b}, simultaneous=True)) if not self.case.get("flip")
                      else (lambda b, a: G.subs({x: a, y: b}, simultaneous=True))).doit()
        if self.syms:
            e = e.subs(self.syms)
        if self.pi:
            e = e.subs(self.var(self.pi), sp.pi * self.var(self.pi))
        if self.emb:
            z = self.var(3 - self.case["v"][0])
            e = sp.expand(e, trig=False, power_exp=False).subs(EMB[self.emb](z), z)
        return sp.expand(e)

    def terms(self, e):
        try:
            p = sp.Poly(self.close(e), self.x, self.y)
        except sp.PolynomialError:
            raise NotPoly()
        out = []
        for (a, b), c in sorted(p.terms()):
            if not c.is_Rational:
                c = sp.simplify(c)
            if not c.is_Rational or a > 5 or b > 5:
                raise NotPoly()
            if c != 0:
                out.append([int(a), int(b)] + res(c))
        return out

    def apply(self, e, steps):
        """Derivatives and values of an expression, evaluated by sympy or left for the printer."""
        for t in steps:
            z = self.var(t["v"])
            if t["k"] == "d":
                e = sp.Derivative(e, (z, t["o"])) if t["lazy"] else sp.diff(e, z, t["o"])
            else:
                a = sp.Rational(*t["a"])
                e = sp.Subs(e, z, a) if t["lazy"] else e.subs(z, a)
        return e

    def at(self, p):
        v = []
        for k, q in ((1, p[0]), (2, p[1])):
            q = sp.Rational(*q)
            if self.pi == k:
                q = q * sp.pi
            elif self.emb and k != self.case["v"][0]:
                q = INV[self.emb](q)
            v.append(float(q))
        return v

    def run_printed(self, P, text, pts):
        """Evaluate the printed code at rational points; [xn, xd, yn, yd, residues of den*value], and den."""
        import jax.numpy as jnp
        import tfc.utils as tu

        den = 1
        for c in P.coeffs():
            c = c if c.is_Rational else sp.simplify(c)
            if not c.is_Rational:
                raise NotPoly()
            den = sp.ilcm(den, c.q)
        num = lambda a: jnp.asarray(a, dtype=float)
        arr = lambda f: (lambda *a: f(*[num(b) for b in a]))
        G = self.poly(self.case["G"])
        Gf = sp.lambdify((self.x, self.y), G, modules=[{"sqrt": jnp.sqrt}, jnp])
        gf = arr(Gf) if not self.case.get("flip") else arr(lambda b, a: Gf(a, b))
        ns = {"np": jnp, "egrad": lambda f, j=0: arr(tu.egrad(f, j)), self.case.get("fname", "g"): gf}
        for s_, v in self.syms.items():
            ns[str(s_)] = float(v)
        code = compile(text, "printed", "eval")
        if self.case.get("vec"):
            # once with the arrays of all the points
            vs = [[], []]
            for p in pts:
                for k, q in enumerate(self.at(p)):
                    vs[k].append(q)
            ns[str(self.x)], ns[str(self.y)] = num(vs[0]), num(vs[1])
            vals = jnp.broadcast_to(jnp.asarray(eval(code, dict(ns)), dtype=float), (len(pts),))
        out = []
        for j, (a, b) in enumerate(pts):
            v = self.at((a, b))
            ns[str(self.x)], ns[str(self.y)] = num(v[0]), num(v[1])
            d = int(den) * a[1] ** 5 * b[1] ** 5
            val = float(vals[j]) if self.case.get("vec") else float(eval(code, dict(ns)))
            z = round(val * d)
            near = abs(val * d - z) < 1e-3 + 1e-9 * abs(z) and abs(z) < 1e13
            out.append([a[0], a[1], b[0], b[1]] + ([z % p for p in PR] if near else [-1, -1]) + [d % p for p in PR])
        return out

    def const(self, e):
        t = self.terms(e)
        if not t:
            return [0, 0]
        if len(t) > 1 or t[0][:2] != [0, 0]:
            raise NotPoly()
        return t[0][2:]


BASE = dict(raised="", ok=True, ret=True, n="", v=0, C=[], K=[], s=[], g=dict(m="none", c=[0, 1], p=[]), mat=[], obs=[], decides=False, pts=[], steps=[])


def execute(case):
    from tfc.utils import CeSolver

    h = H(case)
    out = []
    for op in case["ops"]:
        ev = dict(BASE, b=case["id"], i=op["i"] + 1, op=op["op"], G=case["G"], decides=bool(case.get("decides")))
        for k in ("n", "v", "C", "K", "s", "g"):
            if k in op:
                ev[k] = op[k]
        i = op["i"]
        try:
            if op["op"] == "new":
                C = h.cont([h.functional(op["v"], f) for f in op["C"]])
                h.sol[i] = CeSolver(C, h.cont([h.poly(k) for k in op["K"]]), h.cont([h.poly(k) for k in op["s"]]), h.given(i, op["g"]))
            elif op["op"] == "set":
                cs, n = h.sol[i], op["n"]
                if n == "C":
                    val = h.cont([h.functional(op["v"], f) for f in op["C"]])
                    cs.C = val
                    ev["ret"] = list(cs.C) == list(val)
                elif n == "K":
                    val = h.cont([h.poly(k) for k in op["K"]])
                    keep = list(val)
                    cs.kappa = val
                    ev["ret"] = list(cs.kappa) == keep and list(val) == keep
                elif n == "s":
                    val = h.cont([h.poly(k) for k in op["s"]])
                    keep = list(val)
                    cs.s = val
                    ev["ret"] = list(cs.s) == keep and list(val) == keep
                elif n == "g":
                    val = h.given(i, op["g"])
                    cs.g = val
                    ev["ret"] = bool(cs.g == val)
                elif n == "phi":
                    val = sp.Matrix([[h.poly(k) for k in op["s"]]])
                    cs.phi = val
                    ev["ret"] = bool(cs.phi == val)
                elif n == "ce":
                    val = h.given(i, op["g"])
                    cs.ce = val
                    ev["ret"] = bool(cs.ce == val)
            elif op["op"] == "read":
                cs, n = h.sol[i], op["n"]
                val = getattr(cs, n)
                if n in ("S", "alpha"):
                    ev["mat"] = [[h.const(val[r, c]) for c in range(val.shape[1])] for r in range(val.shape[0])]
                elif n == "ce":
                    ev["obs"] = [h.terms(val)]
                else:
                    ev["obs"] = [h.terms(e) for e in list(val)]
            elif op["op"] == "print":
                from tfc.utils.CeSolver import TfcPrinter

                if case.get("via") == "print_type":
                    import contextlib
                    import io
                    import sys as _sys

                    h.sol[i].print_type = "tfc"
                    e = h.sol[i].ce
                    buf = io.StringIO()
                    with contextlib.redirect_stdout(buf):
                        _sys.displayhook(e)
                    text = buf.getvalue().strip()
                else:
                    e = h.apply(h.sol[i].ce, op.get("steps", []))
                    text = TfcPrinter().doprint(e)
                    ev["steps"] = [{k: t[k] for k in ("k", "v", "o", "a")} for t in op.get("steps", [])]
                # the polynomial is only used for its denominators
                steps = [dict(t, lazy=False) for t in op.get("steps", [])]
                P = sp.Poly(h.apply(h.close(h.sol[i].ce), steps if case.get("via") != "print_type" else []), h.x, h.y)
                ev["text"] = text[:200]
                ev["pts"] = h.run_printed(P, text, op["pts"])
                ev["ret"] = sp.pycode(sp.sin(h.x) + sp.pi) == f"math.sin({h.x}) + math.pi"
            elif op["op"] == "check":
                ev["ret"] = bool(h.sol[i].checkCe())
        except SympyFails:
            break  # the history ends here
        except NotPoly:
            ev["ok"] = False
        except BaseException as e:
            ev["raised"] = type(e).__name__ + ": " + str(e)[:80]
        out.append(ev)
        if ev["raised"] or not ev["ok"]:
            break
    return out


def crash_event(case, why):
    return dict(BASE, b=case["id"], i=1, op="crash", G=case["G"], raised=why)
