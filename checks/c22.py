"""C22: a request that makes no sense is refused, and no other is."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main, parse_beh

RULE = ("every request TLC enumerates (constructor arguments, removed functions, lengths, evaluations, weights, graphs, methods, labels), with random "
        "families and argument containers; non-trivial: the specification refuses it")
ELM = ["ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish", "ELMReLU"]
POLY = ["CP", "LeP", "FS"]


def check(r):
    r.build()
    ok, out = r.tlc("RequestGen", "RequestGenDeep.cfg" if r.thorough else "RequestGen.cfg", workers=1)
    r.count_model("RequestGen", ok, out)
    rng = r.rng
    seen = {}
    for b in parse_beh(out):
        seen[str(sorted(b.items()))] = b
    reqs = list(seen.values())
    big = [b for b in reqs if b["op"] == "mtfc"]
    few = set(map(id, rng.sample(big, min(len(big), 6000 if r.thorough else 700))))
    cases = []
    for b in reqs:
        if b["op"] == "mtfc" and id(b) not in few:
            continue
        b = dict(b)
        c = dict(req=b, form=rng.choice(["list", "list", "tuple", "np", "jnp"]))
        if b["op"] in ("utfc", "mtfc"):
            b["basis"] = {"any": rng.choice(POLY + ELM), "poly": rng.choice(POLY), "elm": rng.choice(ELM)}.get(b["basis"], b["basis"])
            if b["op"] == "mtfc" and b["nested"] and c["form"] in ("np",):
                c["form"] = "list"
        elif b["op"] == "eval":
            c["basis"] = rng.choice(["CP", "LeP", "FS"] + ([] if b["complex"] else ELM))
            c["acc"] = rng.choice(["H", "dH"] if b["api"] == "utfc" else ["H", "Hx", "Hxy"])
            c["jx"] = rng.random() < 0.5
        elif b["op"] == "weights":
            c["basis"] = rng.choice(ELM)
        cases.append(c)
        r.nontrivial.add(str(sorted(b.items())))
    tr = r.drive("requests", cases)
    r.validate(tr, "TraceRequests", chunk=800)
    return r.finish(RULE, exhaustive=False)


if __name__ == "__main__":
    main("C22", check)
