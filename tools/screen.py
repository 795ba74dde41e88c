"""Screen mutations: python3 tools/screen.py FILE.py [-j N] [--tests] [NAME...]

FILE defines M = {name: (prop or [props], file, [(old, new), ...])}.  Each mutation is applied to a scratch copy of /repo's sources and the
checks of its properties run against that copy from a scratch copy of /verif.  Prints which are caught.  (Planted bugs proper: tools/plant.py.)"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name, spec, vs, base):
    props, f, edits = spec
    d = os.path.join(base, name)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    subprocess.run(["git", "checkout", "-q", "-f", "--", "."], cwd=d, check=True)
    for e in edits:
        g, old, new = e if len(e) == 3 else (f, *e)
        p = os.path.join(d, g)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        s = s.replace("\r\n", "\n")
        if s.count(old) != 1:
            return name, "EDIT: %d matches of %r" % (s.count(old), old[:60])
        s = s.replace(old, new)
        open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
    res = []
    for p in props if isinstance(props, list) else [props]:
        r = subprocess.run(["python3", "checks/%s.py" % p.lower()], cwd=vs, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"),
                           capture_output=True, text=True)
        o = r.stdout + r.stderr
        why = re.findall(r"rejected: (.*)", o)
        res.append("%s:%s" % (p, "caught" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "rc%d" % r.returncode) + ((" " + why[0][:110]) if why else "")
                   + (o[-300:] if r.returncode not in (0, 1) else ""))
    shutil.rmtree(d, ignore_errors=True)
    return name, " | ".join(res)


def main():
    a = sys.argv[1:]
    j = 3
    if "-j" in a:
        k = a.index("-j")
        j = int(a[k + 1])
        del a[k:k + 2]
    ns = {}
    exec(open(a[0]).read(), ns)
    base = tempfile.mkdtemp(prefix="screen_", dir="/tmp")
    names = a[1:] or list(ns["M"])
    try:
        vss = []
        for k in range(j):
            v = os.path.join(base, "v%d" % k)
            shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
            os.makedirs(v + "/evidence", exist_ok=True)
            vss.append(v)
        import queue
        q = queue.Queue()
        for v in vss:
            q.put(v)

        def go(n):
            v = q.get()
            try:
                return one(n, ns["M"][n], v, base)
            finally:
                q.put(v)

        with ThreadPoolExecutor(j) as ex:
            for n, r in ex.map(go, names):
                print(n, r, flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
