"""C08: dictionaries of arrays (flat form)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import main
from harness import dcases as D

RULE = ("histories generated by TLC's simulator from DictMachine.tla, concretised with random keys, shapes and integer values "
        "from VERIF_SEED and replayed on both dictionary classes; a history is non-trivial when it flattens after a change")
ARITH = False
OPS = ("round", "todict", "jit", "grad")


def run(r):
    r.model("DictMachine", "DictMachineDeep.cfg" if r.thorough else "DictMachine.cfg")
    behs = r.behaviours("DictMachine", "DictSimA.cfg", 1500 if r.thorough else 250, 26)
    cs = []
    for h in behs:
        for cls in ("TFCDict", "TFCDictRobust"):
            c = D.concretise(r.rng, h, cls, ARITH)
            if c:
                cs.append(c)
                if any(s["op"] in OPS for s in c["steps"]):
                    r.nontrivial.add(str(c["steps"]))
    r.build()
    r.validate(r.drive("dicts", cs), "TraceDict", chunk=1200, group="b")
    return r.finish(RULE)


if __name__ == "__main__":
    main("C08", run)
