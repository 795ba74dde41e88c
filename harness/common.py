"""Shared machinery: scratch build of /repo, TLC runs, worker processes, evidence, verdicts.

Exit codes: 0 property held on everything explored; 1 with a VIOLATION line; 2 machinery failure.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import atexit
import random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # only the screening of mutations (tools/screen.py) sets it
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class MachineryError(Exception):
    pass


def env_for(scratch):
    e = dict(os.environ)
    e.update(
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        HOME=e.get("HOME", "/root"),
        LANG="C.UTF-8",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        JAX_PLATFORMS="cpu",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        QT_QPA_PLATFORM="offscreen",
        PYTHONPATH=os.path.join(scratch, "src") + ":" + VERIF,
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        TFC_SCRATCH=scratch,
    )
    e.pop("CMAKE_GENERATOR", None)
    return e


class Run:
    """One run of one property's check."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.scratch = tempfile.mkdtemp(prefix="tfcverif-")
        atexit.register(lambda: shutil.rmtree(self.scratch, ignore_errors=True))
        self.states = 0
        self.transitions = 0
        self.events = 0
        self.cases = 0
        self.samples = []
        self.violations = []
        self.models = {}
        self.notes = {}
        self.nontrivial = set()
        self.thorough = self.tier == "thorough"

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------ build
    def build(self, cpp=True):
        src = os.path.join(self.scratch, "src")

        def ign(d, names):
            return [n for n in names if n == "__pycache__" or re.match(r"BF\..*\.so$", n) or n == "BF.pyi"]

        shutil.copytree(os.path.join(REPO, "src", "tfc"), os.path.join(src, "tfc"), ignore=ign)
        self.env = env_for(self.scratch)
        os.makedirs(self.env["MPLCONFIGDIR"], exist_ok=True)
        if not cpp:
            return
        bt = os.path.join(self.scratch, "build")
        os.makedirs(bt)
        pb = subprocess.run(
            [PY, "-c", "import pybind11,pathlib;print(pathlib.Path(pybind11.__file__).parent/'share'/'cmake'/'pybind11')"],
            capture_output=True, text=True, env=self.env,
        ).stdout.strip()
        utils = os.path.join(src, "tfc", "utils")
        for cmd in (
            ["cmake", utils, "-DCMAKE_BUILD_TYPE=Release", f"-Dpybind11_DIR={pb}", f"-DPython_EXECUTABLE={PY}", "-G", "Ninja"],
            ["cmake", "--build", "."],
        ):
            r = subprocess.run(cmd, cwd=bt, env=self.env, capture_output=True, text=True)
            if r.returncode != 0:
                raise MachineryError("build failed: " + (r.stdout + r.stderr)[-2000:])
        so = [f for f in os.listdir(bt) if re.match(r"BF\..*\.so$", f)]
        if not so:
            raise MachineryError("no BF module was built")
        shutil.copy(os.path.join(bt, so[0]), utils)
        shutil.rmtree(bt)
        self.log("built the C++ module")

    # -------------------------------------------------------------------- TLC
    def tlc(self, spec, cfg=None, env=None, args=(), workers=1, timeout=600, heap="3g", name=None):
        """Run TLC on /verif/spec/<spec>.tla; returns (ok, output)."""
        cfg = cfg or spec + ".cfg"
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={md}", "-cp", JARS, "tlc2.TLC",
               "-metadir", md, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg, *args, spec + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {name or spec}")
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode == 0, r.stdout + r.stderr

    def model(self, spec, cfg=None, workers=4, timeout=600, heap="4g", args=(), must_hold=True):
        """Exhaustive check of a design-level model.  The model does not depend on /repo, so a failure is a
        failure of the machinery, not of the code."""
        ok, out = self.tlc(spec, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
        self.count_model(cfg or spec, ok or not must_hold, out)
        return out

    def count_model(self, name, ok, out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m or not ok:
            raise MachineryError(f"model {name}: TLC failed:\n" + out[-3000:])
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        self.states += dist
        self.transitions += gen
        self.models[name] = {"states": dist, "transitions": gen}
        self.log(f"model {name}: {dist} distinct states, {gen} transitions, invariants hold")

    def behaviours(self, spec, cfg, num, depth, timeout=300):
        """Behaviours generated by TLC's simulator: the model prints one line 'BEH <json>' per behaviour."""
        ok, out = self.tlc(spec, cfg, timeout=timeout, args=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed), "-aril", "0"))
        behs = parse_beh(out)
        if "Error:" in out and not behs:
            raise MachineryError(f"simulation of {cfg}: " + out[-2000:])
        # the simulator also prints the alternatives of the last step: keep one per common prefix, chosen by the seed
        pre = {}
        for b in behs:
            pre.setdefault(json.dumps(b[:-1]), []).append(b)
        res = [self.rng.choice(v) for v in pre.values()]
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            n = int(m[-1].replace(",", ""))
            self.transitions += n
            self.models[cfg + " (simulation)"] = {"behaviours": len(res), "transitions": n}
        self.log(f"simulation {cfg}: {len(res)} behaviours")
        return res

    # ---------------------------------------------------------------- workers
    def drive(self, driver, cases, nproc=NPROC, case_timeout=300, total_timeout=800):
        """Run driver.execute(case) for each case in worker processes on the scratch copy.

        Returns the list of trace files.  A case on which the process dies or hangs becomes an event as well."""
        cases = list(cases)
        self.cases += len(cases)
        for k, c in enumerate(cases):
            c.setdefault("id", k)
        n = max(1, min(nproc, (len(cases) + 3) // 4))
        parts = [cases[k::n] for k in range(n)]
        td = tempfile.mkdtemp(prefix="drv-", dir=self.scratch)
        t_end = time.time() + total_timeout

        def one(k):
            trace = os.path.join(td, f"t{k}.ndjson")
            casef = os.path.join(td, f"c{k}.json")
            prog = os.path.join(td, f"p{k}")
            errf = os.path.join(td, f"e{k}")
            json.dump(parts[k], open(casef, "w"))
            open(trace, "w").close()
            start = 0
            deaths = 0
            while start < len(parts[k]):
                open(prog, "w").write(str(start))
                with open(errf, "w") as ef:
                    p = subprocess.Popen(
                        [PY, "-m", "drivers.worker", driver, casef, trace, prog, str(start)],
                        cwd=self.scratch, env=self.env, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL,
                    )
                    last, stamp, why = start, time.time(), None
                    while p.poll() is None:
                        time.sleep(0.05)
                        now = time.time()
                        try:
                            cur = int(open(prog).read() or last)
                        except (OSError, ValueError):
                            cur = last
                        if cur != last:
                            last, stamp = cur, now
                        if now - stamp > case_timeout:
                            why = "hang"
                        elif now > t_end:
                            why = "budget"
                        if why:
                            p.kill()
                            p.wait()
                            break
                rc = p.returncode
                if why == "budget":
                    raise MachineryError("driver ran out of its time budget")
                if why is None and rc == 0:
                    break
                if why is None and rc == 3:  # the driver itself failed, not the code under test
                    raise MachineryError("driver error: " + open(errf).read()[-3000:])
                last = int(open(prog).read() or last)
                deaths += 1
                # the code under test killed or blocked the process: record that as an event of the case
                with open(trace, "a") as f:
                    f.write("\n")
                ev = subprocess.run(
                    [PY, "-m", "drivers.worker", driver, casef, trace, prog, str(last), "--crash", why or f"exit {rc}"],
                    cwd=self.scratch, env=self.env, capture_output=True, text=True, timeout=200,
                )
                if ev.returncode != 0:
                    raise MachineryError("driver crash event: " + ev.stderr[-2000:])
                self.log(f"worker {k}: process ended at case {last} ({why or rc}): " + open(errf).read()[-300:])
                start = last + 1
                if deaths > 4:
                    break
            # drop torn lines
            good = []
            for line in open(trace):
                line = line.strip()
                if not line:
                    continue
                try:
                    json.loads(line)
                except ValueError:
                    continue
                good.append(line)
            with open(trace, "w") as f:
                f.write("".join(g + "\n" for g in good))
            return trace, len(good)

        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(one, range(n)))
        tot = sum(r[1] for r in res)
        self.log(f"driver {driver}: {len(cases)} cases, {tot} recorded events")
        return [r[0] for r in res if r[1]]

    # ------------------------------------------------------------- validation
    def validate(self, traces, spec, cfg=None, chunk=4000, heap="3g", timeout=600, keep=None, group=None):
        """Trace validation with TLC; collects violations.  Lines are split in chunks (never inside one `group`)."""
        files = []
        td = tempfile.mkdtemp(prefix="val-", dir=self.scratch)
        for t in traces:
            lines = open(t).read().splitlines()
            lines = [x for x in lines if x.strip()]
            start = 0
            while start < len(lines):
                end = min(len(lines), start + chunk)
                if group is not None:
                    while end < len(lines) and json.loads(lines[end]).get(group) == json.loads(lines[end - 1]).get(group):
                        end += 1
                fn = os.path.join(td, f"v{len(files)}.ndjson")
                with open(fn, "w") as f:
                    f.write("".join(x + "\n" for x in lines[start:end]))
                files.append((fn, lines[start:end]))
                start = end

        def one(item):
            fn, lines = item
            out = fn + ".out.json"
            ok, txt = self.tlc(spec, cfg, env={"TRACE": fn, "OUT": out}, heap=heap, timeout=timeout, name=os.path.basename(fn))
            if not os.path.exists(out):
                raise MachineryError(f"trace validation of {fn} gave no verdict:\n" + txt[-3000:])
            res = json.load(open(out))
            if res["lines"] != len(lines):
                raise MachineryError("trace validation did not consume the whole trace")
            m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
            return res["bad"], lines, int(m[-1][1].replace(",", "")) if m else 0

        with ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(one, files))
        nbad = 0
        for bad, lines, nst in results:
            self.events += len(lines)
            self.notes["trace_states"] = self.notes.get("trace_states", 0) + nst
            for b in bad:
                nbad += 1
                ev = json.loads(lines[b["line"] - 1])
                self.violations.append({"clauses": b["why"], "event": ev, "spec": spec, "line": b["line"]})
        if results and results[0][1]:
            for s in (results[0][1][0], results[-1][1][-1]):
                self.samples.append(shorten(json.loads(s)))
        self.log(f"validated {sum(len(x[1]) for x in results)} events against {cfg or spec}: {nbad} rejected")

    # ----------------------------------------------------------------- verdict
    def finish(self, rule, assumptions=(), exhaustive=False):
        known = load_known(self.prop)
        new, hits = [], {}
        for v in self.violations:
            key = json.dumps(v["event"], sort_keys=True)
            k = next((x for x in known if x["pattern"] in key), None)
            if k:
                hits.setdefault(k["what"], 0)
                hits[k["what"]] += 1
            else:
                new.append(v)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "states": self.states + self.notes.pop("trace_states", 0),
            "transitions": self.transitions + self.events,
            "traces_validated_against_impl": self.events,
            "evaluations": self.cases,
            "distinct_nontrivial": len(self.nontrivial) if self.nontrivial else self.cases,
            "rule": rule,
            "samples": self.samples[:6] or ["none"],
            "models": self.models,
            "exhaustive": exhaustive,
        }
        cov.update(self.notes)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, n in hits.items():
            print(f"KNOWN-FINDING: property={self.prop} {what} ({n} events)")
        if new:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "violations": new[:50], "total": len(new)}, f, indent=1)
            for v in new[:8]:
                print("  rejected:", json.dumps(v["clauses"])[:300], "::", json.dumps(shorten(v["event"]))[:700])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"OK property={self.prop} tier={self.tier} seed={self.seed} events={self.events} model_states={self.states} wall={time.time()-self.t0:.1f}s")
        return 0


def parse_beh(out):
    res = []
    for line in out.splitlines():
        i = line.find("BEH ")
        if i >= 0:
            s = line[i + 4:].strip()
            if s.endswith('"'):
                s = s[:-1]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            try:
                res.append(json.loads(s))
            except ValueError:
                pass
    return res


def shorten(ev, depth=0):
    if isinstance(ev, dict):
        return {k: shorten(v, depth + 1) for k, v in ev.items()}
    if isinstance(ev, list):
        if len(ev) > 8:
            return [shorten(x, depth + 1) for x in ev[:4]] + [f"... {len(ev)} items"]
        return [shorten(x, depth + 1) for x in ev]
    return ev


def load_known(prop):
    """Lines 'finding: property=<id> match=<substring of the event> :: <what fails>'; 'fixed:' lines suppress nothing."""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append({"pattern": m.group(2), "what": m.group(3)})
    return res


def main(prop, fn, **kw):
    r = None
    try:
        r = Run(prop, **kw)
        code = fn(r)
    except Exception as e:
        if not isinstance(e, MachineryError):
            import traceback

            traceback.print_exc(file=sys.stdout)
        print(f"MACHINERY-ERROR property={prop}: {e}", flush=True)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
