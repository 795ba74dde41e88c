"""Worker process: executes the cases of one driver on the scratch copy of the code and records events.

Exit 3 means that the driver (not the code under test) failed."""
import importlib
import json
import os
import sys
import traceback


def main():
    name, casef, trace, prog, start = sys.argv[1:6]
    start = int(start)
    cases = json.load(open(casef))
    mod = importlib.import_module("drivers." + name)
    if len(sys.argv) > 6:
        ev = mod.crash_event(cases[start], sys.argv[7])
        with open(trace, "a") as f:
            f.write(json.dumps(ev) + "\n")
        return 0
    try:
        import tfc
    except BaseException as e:  # the package under test does not import: that is an observation of every case
        with open(trace, "a") as f:
            for c in cases[start:]:
                f.write(json.dumps(mod.crash_event(c, "import: " + type(e).__name__)) + "\n")
        traceback.print_exc()
        return 0
    assert tfc.__file__.startswith(os.environ["TFC_SCRATCH"]), tfc.__file__
    with open(trace, "a") as f:
        for k in range(start, len(cases)):
            with open(prog, "w") as pf:
                pf.write(str(k))
            for ev in mod.execute(cases[k]):
                f.write(json.dumps(ev) + "\n")
            f.flush()
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
