"""Confirm planted bugs: python3 tools/plant.py [--new FILE] [--check] ID...

--new FILE: FILE is a Python file defining BUGS = {id: dict(prop, file, edits=[(old, new), ...], needs, breaks, demo)}; the patch,
demo and meta files of the ids are written under seeded/.
For each id: demo passes on the clean tree, patch applies, builds, stable tests pass, demo fails.  --check also runs the
property's check against it (and --all every check).  /repo is restored after each step."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, cwd=R, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def restore():
    sh("git checkout -- .")


def make(ids, fn):
    ns = {}
    exec(open(fn).read(), ns)
    for i in ids or list(ns["BUGS"]):
        b = ns["BUGS"][i]
        restore()
        edits = b["edits"]
        for e in edits:
            f, old, new = e if len(e) == 3 else (b["file"], *e)
            p = os.path.join(R, f)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            if crlf:
                s = s.replace("\r\n", "\n")
            if s.count(old) != 1:
                raise SystemExit(f"{i}: {s.count(old)} matches in {f} of {old!r}")
            s = s.replace(old, new)
            open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
        rc, d = sh("git diff --no-color --binary")
        p = subprocess.run("git diff --no-color", shell=True, cwd=R, capture_output=True)
        restore()
        D = os.path.join(ROOT, "seeded", i)
        os.makedirs(D, exist_ok=True)
        open(os.path.join(D, "patch.diff"), "wb").write(p.stdout)
        open(os.path.join(D, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(D, "demo.sh"), "w").write(
            '#!/bin/bash\n# exit 0: the property holds on the demonstrated input\nexport PYTHONPATH=/repo/src JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(D, "meta.json"), "w"), indent=1)
    return list(ids or ns["BUGS"])


def confirm(i, tests=True, check=False, every=False):
    D = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(os.path.join(D, "meta.json")))
    out = {}
    restore()
    try:
        sh("bash /opt/vp/build.sh")
        out["demo clean"], o1 = sh(f"bash {D}/demo.sh", timeout=300)
        rc, o = sh(f"git apply {D}/patch.diff")
        if rc:
            return {"apply": o}
        rc, o = sh("bash /opt/vp/build.sh")
        if rc:
            return {"build": o[-1500:]}
        out["demo bug"], o2 = sh(f"bash {D}/demo.sh", timeout=300)
        if out["demo clean"]:
            out["o1"] = o1[-800:]
        if not out["demo bug"]:
            out["o2"] = o2[-300:]
        if tests:
            sh("bash /opt/vp/test.sh /tmp/plant_tests.json")
            t = json.load(open("/tmp/plant_tests.json"))
            st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            miss = [x for x in st if x not in t["passed"]]
            out["tests"] = "pass" if not miss else miss[:5]
        if check:
            props = [meta["property"]]
            if every:
                props = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
            out["caught by"] = []
            for p in props:
                rc, o = sh(f"VERIF_SEED=1 python3 checks/{p.lower()}.py", cwd=ROOT)
                if rc == 1:
                    out["caught by"].append(p)
                elif rc != 0:
                    out["check " + p] = o[-600:]
    finally:
        restore()
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    fn = None
    if "--new" in a:
        k = a.index("--new")
        fn = a[k + 1]
        del a[k:k + 2]
    fl = {x for x in a if x.startswith("--")}
    ids = [x for x in a if not x.startswith("--")]
    if fn:
        ids = make(ids, fn)
    for i in ids or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        print(i, json.dumps(confirm(i, "--notests" not in fl, "--check" in fl or "--all" in fl, "--all" in fl)), flush=True)
    restore()
    sh("bash /opt/vp/build.sh")
