"""C19: SimpleTable writes exactly the table asked for."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main, parse_beh

RULE = ("every size and header choice TLC enumerates and wide tables, with random dyadic values, formats and headers; the text is read back "
        "as LaTeX reads it and every number must be the correctly rounded value.  Non-trivial: all")
HEAD = ["$\\alpha$", "Error", "$x_1$", "N points", "Time (s)", "a", "$\\frac{1}{2}$", "[b]", "50\\%", "CP", "Method [1]", "-"]


def mk(rng, b, wide=0, tall=0):
    nr, nc = tall or b["nr"], wide or b["nc"]
    t = rng.choice(["E", "e", "f", "f", "E"])
    k = rng.choice([0, 1, 2, 3, 4] if t == "f" else [1, 2, 3, 4])
    pre, post = rng.choice([("", ""), ("", ""), ("$", "$"), ("", "\\%"), ("[", "]"), ("(", ")"), ("\\textbf{", "}")])
    default = rng.random() < 0.25
    if default:
        t, k, pre, post = "E", 4, "", ""
    flag = "" if default else rng.choice(["", "", "", "+", "12", "-9"])
    def val():
        d = rng.choice([1, 2, 4, 8, 16, 32, 64])
        r = rng.random()
        if r > 0.85:    # very small, or very large; at most as many digits as are shown
            q = rng.randint(-300, -11) if t == "f" else rng.choice([rng.randint(-300, 290), rng.randint(-20, 20)])
            return [rng.choice([-1, 1]) * rng.randint(1, 99), 1, q or 1] if t != "f" else [rng.choice([-1, 1]) * rng.randint(1, 9), 1, q]
        n = 0 if r < 0.08 else rng.randint(-99, 99) if r < 0.7 else rng.choice([-1, 1]) * rng.choice([1000, 4095, 9999, 10000])
        if abs(n) > 99:
            d = 1
        return [n, d, 0]
    head = lambda n: [rng.choice(HEAD) if n < 8 or rng.random() < 0.3 else "r%d" % i for i in range(n)]
    arr = [[val() for _ in range(nc)] for _ in range(nr)]
    return dict(arr=arr, form=dict(t="f" if t == "f" else t, k=k, pre=pre, post=post, flag=flag), default=default, layout=rng.choice(["C", "F", "strided"]),
                col=head(nc + (1 if b["row"] else 0)) if b["col"] else None, row=head(nr) if b["row"] else None)


def check(r):
    ok, out = r.tlc("LatexGen", "LatexGenDeep.cfg" if r.thorough else "LatexGen.cfg", workers=1)
    r.count_model("LatexGen", ok, out)
    r.build()
    rng = r.rng
    sizes = parse_beh(out)
    cases = []
    for b in sizes:
        for _ in range(8):
            cases.append(mk(rng, b))
    for _ in range(400 if r.thorough else 60):
        cases.append(mk(rng, rng.choice(sizes), wide=rng.randint(10, 60)))
        cases.append(mk(rng, rng.choice(sizes), tall=rng.randint(8, 130)))
    for c in cases:
        c["form"]["t"] = c["form"]["t"]
        r.nontrivial.add(str((c["arr"], c["form"], c["col"], c["row"])))
    tr = r.drive("latex", cases)
    r.validate(tr, "TraceLatex", chunk=400)
    return r.finish(RULE)


if __name__ == "__main__":
    main("C19", check)
