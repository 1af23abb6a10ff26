"""Check runner: implementation traces -> TLC -> verdict + evidence.

A check of property ID does, in one scratch directory that is removed again:
  1. starts TLC on the property's design models (exhaustive, small constants),
  2. runs the property's driver in its own process against /repo: the driver
     calls cddm's public API and records one JSON line per trace,
  3. lets TLC validate every trace against the trace specification,
  4. re-validates deliberately corrupted copies of some traces (canaries):
     every one must be rejected, otherwise the check itself is broken,
  5. writes evidence/<ID>.json and prints the verdict.
"""
import copy
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CDDM_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def cpus():
    try:
        return len(os.sched_getaffinity(0))
    except Exception:
        return os.cpu_count() or 4


class MachineryError(Exception):
    pass


def code_hash():
    """Hash of everything that determines the compiled numba code."""
    h = hashlib.sha256()
    base = os.path.join(REPO, "cddm")
    for name in sorted(os.listdir(base)):
        if name.endswith((".py", ".ini")):
            h.update(name.encode())
            with open(os.path.join(base, name), "rb") as f:
                h.update(f.read())
    h.update(str(cpus()).encode())
    return h.hexdigest()[:24]


WARM = "import cddm, cddm.core, cddm.multitau, cddm.norm, cddm.avg, cddm.sim, cddm.map, cddm.video, cddm.fft, cddm.window"


def driver_env(scratch, extra=None, cache=None):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("CDDM_", "PYTHON", "NUMBA", "MPL", "QT_"))}
    home = os.path.join(scratch, "home")
    os.makedirs(home, exist_ok=True)
    env.update(HOME=home, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen", LC_ALL="C.UTF-8",
               NUMBA_NUM_THREADS=str(cpus()), NUMBA_CACHE_DIR=cache or os.path.join(scratch, "cache"),
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
               MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               XDG_RUNTIME_DIR=os.path.join(scratch, "xdg"),
               PYTHONPATH=REPO + ":" + os.path.join(VERIF, "harness"))
    os.makedirs(env["XDG_RUNTIME_DIR"], mode=0o700, exist_ok=True)
    env.update(extra or {})
    return env


def cache_name(extra):
    """Compiled code is shared only between runs on byte-identical sources and
    with the same compile-time settings."""
    return os.path.join(VERIF, "build", "numba-" + code_hash(),
                        "-".join(sorted(k[5:].lower() + v for k, v in (extra or {}).items())) or "default")


def warm(scratch, extras):
    """Compiles once per compile-time setting, unless that was done before.  The
    result is never written again: numba's cache is not safe when several
    processes compile into it, so every driver works on a copy."""
    procs = []
    for i, extra in enumerate(extras):
        final = cache_name(extra)
        if not os.path.isdir(final):
            tmp = os.path.join(scratch, "warm-%d" % i)
            os.makedirs(tmp)
            procs.append((tmp, final, subprocess.Popen([PY, "-c", WARM], env=driver_env(scratch, extra, tmp), cwd=scratch,
                                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    for tmp, final, p in procs:
        # a failing import is for the drivers to report
        try:
            p.wait(300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if p.returncode == 0 and not os.path.isdir(final):
            part = final + ".%d" % os.getpid()
            shutil.copytree(tmp, part)
            try:
                os.rename(part, final)
            except OSError:
                shutil.rmtree(part, ignore_errors=True)


def prune_cache(keep=4):
    base = os.path.join(VERIF, "build")
    if not os.path.isdir(base):
        return
    dirs = [os.path.join(base, d) for d in os.listdir(base) if d.startswith("numba-")]
    cur = os.path.join(base, "numba-" + code_hash())
    dirs = sorted((d for d in dirs if d != cur), key=os.path.getmtime, reverse=True)
    for d in dirs[keep:]:
        shutil.rmtree(d, ignore_errors=True)


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class Tlc(object):
    """One TLC run."""

    def __init__(self, scratch, name, module, cfg, workers=2, heap="2g", extra=()):
        self.name, self.module = name, module
        self.dir = os.path.join(scratch, "tlc-" + name)
        os.makedirs(self.dir)
        cfgfile = os.path.join(self.dir, module + ".cfg")
        with open(cfgfile, "w") as f:
            f.write(cfg)
        self.log = os.path.join(self.dir, "out.txt")
        self.cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC",
                    "-workers", str(workers), "-metadir", os.path.join(self.dir, "meta"),
                    "-noGenerateSpecTE", "-config", cfgfile] + list(extra) + [os.path.join(SPEC, module + ".tla")]

    def start(self):
        self.t0 = time.time()
        self.out = open(self.log, "w")
        self.proc = subprocess.Popen(self.cmd, stdout=self.out, stderr=subprocess.STDOUT,
                                     cwd=self.dir)
        return self

    def finish(self, timeout):
        try:
            self.rc = self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            self.rc = -1
        self.out.close()
        self.wall = time.time() - self.t0
        with open(self.log) as f:
            self.text = f.read()
        m = STATS.findall(self.text)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return self

    def tail(self, n=40):
        return "\n".join(self.text.splitlines()[-n:])


def cfg_text(consts, spec=None, init=None, next_=None, invariants=(), properties=(),
             constraint=None, deadlock=False, view=None, symmetry=None, postcondition=None):
    out = []
    if spec:
        out.append("SPECIFICATION %s" % spec)
    else:
        out.append("INIT %s\nNEXT %s" % (init, next_))
    for k, v in consts.items():
        out.append("CONSTANT %s %s" % (k, v if str(v).startswith("<-") else "= " + str(v)))
    for i in invariants:
        out.append("INVARIANT " + i)
    for i in properties:
        out.append("PROPERTY " + i)
    if constraint:
        out.append("CONSTRAINT " + constraint)
    if view:
        out.append("VIEW " + view)
    if symmetry:
        out.append("SYMMETRY " + symmetry)
    if postcondition:
        out.append("POSTCONDITION " + postcondition)
    out.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
    return "\n".join(out) + "\n"


# TLC could not even evaluate the specification on what was observed
EVAL = re.compile(r"Attempted to |The error occurred when TLC was evaluating|TLC threw an unexpected exception|"
                  r"Error: Evaluating |In evaluation|was not in the domain|CHOOSE x|nonenumerable|Overflow")


class EvalError(Exception):
    pass


BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)
END = re.compile(r'<<\s*"END",\s*(\d+),\s*(\d+)\s*>>')


def validate(scratch, name, module, consts, tracefile, ntraces, timeout, heap="8g", workers=None,
             constraint=None, view=None):
    consts = dict(consts, TraceFile='"%s"' % tracefile)
    cfg = cfg_text(consts, init="TraceInit", next_="TraceNext", invariants=["Verdict"],
                   constraint=constraint, view=view)
    t = Tlc(scratch, name, module, cfg, workers=workers or cpus(), heap=heap).start().finish(timeout)
    # a verdict line may be wrapped by TLC's printer
    flat = re.sub(r"\s+", " ", t.text)
    ended = {}
    for tr, l in END.findall(flat):
        ended[int(tr)] = int(l)
    bad = {}
    if len(re.findall(r'"BAD"', flat)) != len(BAD.findall(flat)):
        raise MachineryError("a verdict of TLC could not be read")
    for tr, l, cl in BAD.findall(flat):
        bad.setdefault(int(tr), set()).add((int(l), tuple(sorted(c.strip().strip('"') for c in cl.split(",")))))
    if EVAL.search(t.text):
        t.bad = bad
        raise EvalError(t)
    if t.rc != 0 or "No error has been found" not in t.text:
        raise MachineryError("TLC on %s failed (rc %s):\n%s" % (module, t.rc, t.tail()))
    if len(ended) != ntraces:
        raise MachineryError("TLC consumed %d of %d traces" % (len(ended), ntraces))
    return t, bad


def write_cases(path, cases):
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps({x: c[x] for x in c if x != "desc"}) + "\n")


def find_outside(scratch, name, run, cases, timeout, t):
    """The recorded observations do not fit the domain of the specification
    (e.g. an array of another length): find one such trace by bisection.
    Returns (tlc, bad) like validate."""
    def attempt(sub, k):
        path = os.path.join(scratch, "%s-part.ndjson" % name)
        write_cases(path, sub)
        try:
            return validate(scratch, "%s-part%d" % (name, k), run["module"], run.get("consts", {}), path, len(sub),
                            timeout, workers=run.get("workers"), constraint=run.get("constraint"), view=run.get("view"))
        except EvalError:
            return None
    lo, hi, k = 0, len(cases), 0
    if attempt(cases, 0) is not None:
        raise MachineryError("TLC could not evaluate the canaries:\n%s" % t.tail())
    while hi - lo > 1:
        k += 1
        mid = (lo + hi) // 2
        if attempt(cases[lo:mid], k) is None:
            hi = mid
        else:
            lo = mid
    bad = {lo + 1: {(len(cases[lo]["ev"]), ("observation outside the domain of the specification",))}}
    return t, bad


def set_path(obj, path, value):
    for p in path[:-1]:
        obj = obj[p]
    obj[path[-1]] = value


def get_path(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def corrupt(case, spec):
    """A copy of a recorded case with one recorded observation changed."""
    c = copy.deepcopy(case)
    path = spec["path"]
    old = get_path(c["ev"][spec["ev"]], path)
    if "to" in spec:
        new = spec["to"]
    elif isinstance(old, str):
        new = old + "x"
    else:
        new = old + 1
    set_path(c["ev"][spec["ev"]], path, new)
    return c


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    out.append(json.loads(line))
    return out


def short(x, n=400):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


class Check(object):
    """One property check.

    runs : list of dict(driver=module, args=[...], module=trace module, consts={}, ...)
    design : list of dict(name, module, cfg, [expect])
    """

    def __init__(self, pid, runs, design=(), level_note="", assumptions=(), rule=""):
        self.pid, self.runs, self.design = pid, runs, list(design)
        self.assumptions, self.rule = list(assumptions), rule

    def main(self, tier, seed, only=None, keep=False):
        t0 = time.time()
        base = os.environ.get("CHECK_TMP") or tempfile.gettempdir()
        scratch = tempfile.mkdtemp(prefix="cddm-%s-" % self.pid, dir=base)
        try:
            return self._main(tier, seed, only, scratch, t0)
        except MachineryError as e:
            print("ERROR %s: %s" % (self.pid, e))
            return 2
        finally:
            for p in getattr(self, "procs", []):
                if p.poll() is None:
                    p.kill()
            if keep:
                print("scratch kept:", scratch)
            else:
                shutil.rmtree(scratch, ignore_errors=True)

    # -- parts -------------------------------------------------------------
    def _drive(self, k, run, tier, seed, only, scratch):
        trace = os.path.join(scratch, "trace-%d.ndjson" % k)
        log = os.path.join(scratch, "driver-%d.log" % k)
        cache = os.path.join(scratch, "cache-%d" % k)
        if os.path.isdir(cache_name(run.get("env"))):
            shutil.copytree(cache_name(run.get("env")), cache)
        else:
            os.makedirs(cache)
        env = driver_env(scratch, run.get("env"), cache)
        if run.get("sample") and tier == "quick":
            env["VERIF_SAMPLE"] = str(run["sample"])
        env["VERIF_TIER"], env["VERIF_SEED"] = tier, str(seed)
        env["VERIF_SCRATCH"] = os.path.join(scratch, "work-%d" % k)
        os.makedirs(env["VERIF_SCRATCH"], exist_ok=True)
        if only:
            env["VERIF_CASE"] = only
        limit = run.get("limit", 420 if tier == "quick" else 7200)
        with open(log, "w") as f:
            p = subprocess.Popen([PY, "-X", "faulthandler", "-m", run["driver"], trace] + run.get("args", []), env=env,
                                 stdout=f, stderr=subprocess.STDOUT, cwd=env["VERIF_SCRATCH"],
                                 start_new_session=True)
            self.procs.append(p)
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                rc = "timeout"
            try:
                os.killpg(p.pid, 9)
            except Exception:
                pass
            p.wait()
        cases, begun, done = [], None, False
        if os.path.exists(trace):
            with open(trace) as f:
                for line in f:
                    if not line.endswith("\n"):
                        break
                    d = json.loads(line)
                    if "begin" in d:
                        begun = d["begin"]
                    elif "done" in d:
                        done = True
                    else:
                        begun = None
                        cases.append(d)
        with open(log) as f:
            logtext = f.read()
        self.drv[k] = dict(rc=rc, cases=cases, begun=begun, done=done, log=logtext)

    def _main(self, tier, seed, only, scratch, t0):
        self.procs, self.drv = [], {}
        prune_cache()
        designs = []
        for d in self.design:
            if tier == "quick" and d.get("thorough_only"):
                continue
            cfg = d["cfg"] if tier == "quick" else d.get("cfg_thorough", d["cfg"])
            designs.append((d, Tlc(scratch, "design-" + d["name"], d["module"], cfg,
                                   workers=d.get("workers", 2), heap=d.get("heap", "3g"),
                                   extra=d.get("extra", ())).start()))
            self.procs.append(designs[-1][1].proc)
        extras = []
        for r in self.runs:
            if r.get("env") not in extras:
                extras.append(r.get("env"))
        warm(scratch, extras)
        with ThreadPoolExecutor(8) as pool:
            for f in [pool.submit(self._drive, k, r, tier, seed, only, scratch) for k, r in enumerate(self.runs)]:
                f.result()

        def judge(k):
            run, cases = self.runs[k], self.drv[k]["cases"]
            if not cases:
                return None
            canaries = []
            for c in cases:
                for s in c.pop("canary", []):
                    canaries.append(corrupt(c, s))
            tracefile = os.path.join(scratch, "cases-%d.ndjson" % k)
            maxcan = run.get("max_canaries", 40)
            if len(canaries) > maxcan:
                canaries = canaries[::max(1, len(canaries) // maxcan)][:maxcan]
            write_cases(tracefile, cases + canaries)
            limit = run.get("tlc_limit", 420 if tier == "quick" else 14400)
            try:
                t, bad = validate(scratch, "trace-%d" % k, run["module"], run.get("consts", {}), tracefile,
                                  len(cases) + len(canaries), limit, workers=run.get("workers"),
                                  constraint=run.get("constraint"), view=run.get("view"))
            except EvalError as e:
                t, bad = find_outside(scratch, "trace-%d" % k, run, cases, limit, e.args[0])
            return canaries, t, bad

        with ThreadPoolExecutor(4) as pool:
            judged = list(pool.map(judge, range(len(self.runs))))

        violations, samples, ntraces, nevents, ncanary = [], [], 0, 0, 0
        states = transitions = 0
        clause_counts, kinds = {}, {}
        for k, run in enumerate(self.runs):
            d = self.drv[k]
            cases = d["cases"]
            if not d["done"]:
                if d["begun"] is None and not cases:
                    # not even the import worked
                    if "cddm" in d["log"] and "Traceback" in d["log"]:
                        violations.append(dict(run=k, case=dict(id="import"), ev=0, clauses=["the package cannot be used"],
                                               detail=d["log"][-3000:]))
                    else:
                        raise MachineryError("driver %s failed: rc %s\n%s" % (run["driver"], d["rc"], d["log"][-3000:]))
                elif d["begun"] is None:
                    raise MachineryError("driver %s failed between cases: rc %s\n%s" % (run["driver"], d["rc"], d["log"][-3000:]))
                else:
                    what = "no answer (time limit)" if d["rc"] == "timeout" else "process died"
                    violations.append(dict(run=k, case=dict(id=d["begun"]), ev=0, clauses=[what], detail="rc=%s\n%s" % (d["rc"], d["log"][-3000:])))
            if not cases:
                continue
            canaries, t, bad = judged[k]
            states += t.distinct
            transitions += t.generated
            run["tlc_wall"] = round(t.wall, 1)
            for i, c in enumerate(cases):
                ntraces += 1
                nevents += len(c["ev"])
                for e in c["ev"]:
                    kk = "%s" % e.get("api", e.get("k"))
                    kinds[kk] = kinds.get(kk, 0) + 1
                if i + 1 in bad:
                    l, cl = min(bad[i + 1])
                    for _, cs in bad[i + 1]:
                        for x in cs:
                            clause_counts[x] = clause_counts.get(x, 0) + 1
                    violations.append(dict(run=k, case=c, ev=l, clauses=list(cl), detail=""))
            ncanary += len(canaries)
            if not any(v["run"] == k for v in violations):
                missed = [i for i in range(len(canaries)) if len(cases) + i + 1 not in bad]
                if missed:
                    raise MachineryError("%d of %d corrupted traces were accepted, e.g. %s" % (
                        len(missed), len(canaries), short(canaries[missed[0]], 1500)))
            for c in cases[:: max(1, len(cases) // 4)][:4]:
                samples.append(dict(id=c["id"], desc=c.get("desc", ""), events=len(c["ev"]),
                                    first_event=json.loads(json.dumps(c["ev"][0])) if len(json.dumps(c["ev"][0])) < 1500
                                    else short(c["ev"][0], 1500)))
        dres = []
        for d, t in designs:
            limit = d.get("limit", 420 if tier == "quick" else 14400)
            t.finish(limit)
            expect_violation = d.get("expect")          # an invariant/property that must fail (sensitivity)
            if expect_violation:
                ok = expect_violation in t.text and "is violated" in t.text or \
                    ("Temporal property %s was violated" % expect_violation in t.text)
                if not ok:
                    raise MachineryError("design run %s: the weakened model was not rejected\n%s" % (d["name"], t.tail()))
            elif t.rc != 0 or "No error has been found" not in t.text and "simulat" not in " ".join(d.get("extra", ())):
                raise MachineryError("design model %s failed (rc %s)\n%s" % (d["name"], t.rc, t.tail(80)))
            states += t.distinct
            transitions += t.generated
            dres.append(dict(model=d["name"], module=d["module"], distinct=t.distinct, generated=t.generated,
                             wall_s=round(t.wall, 1), expected_violation=expect_violation or "",
                             what=d.get("what", "")))

        # known findings
        known = [x for x in load_known() if x.get("property") == self.pid and x.get("status") == "known"]
        fresh, reported = [], set()
        for v in violations:
            hit = None
            for kf in known:
                if re.search(kf["case"], v["case"]["id"]) and set(v["clauses"]) <= set(kf["clauses"]):
                    hit = kf
            if hit:
                if hit["what"] not in reported:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, hit["what"]))
                    reported.add(hit["what"])
            else:
                fresh.append(v)
        outdir = os.path.join(VERIF, "out", self.pid)
        shutil.rmtree(outdir, ignore_errors=True)
        if fresh:
            os.makedirs(outdir, exist_ok=True)
        for i, v in enumerate(fresh[:20]):
            path = os.path.join(outdir, "replay-%d.json" % i)
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, seed=seed, tier=tier, case=v["case"], failing_event=v["ev"],
                               clauses=v["clauses"], detail=v["detail"],
                               rerun="VERIF_SEED=%d %s check.py %s --tier %s --case '%s'" % (
                                   seed, PY, self.pid, tier, v["case"]["id"])), f)
            if i < 5:
                print("  case %s event %s: %s %s" % (v["case"]["id"], v["ev"], ",".join(v["clauses"]),
                                                     v["detail"][-600:]))
        if len(fresh) > 5:
            print("  ... %d failing traces in all; clauses: %s" % (len(fresh), clause_counts))
        ev = dict(property=self.pid, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=states, transitions=transitions,
                                traces_validated_against_impl=ntraces,
                                trace_events=nevents, events_by_kind=kinds,
                                corrupted_traces_rejected=ncanary if not violations else 0,
                                design_models=dres, samples=samples,
                                rule=self.rule),
                  assumptions=self.assumptions, wall_s=round(time.time() - t0, 1),
                  violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if fresh:
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.join(outdir, "replay-0.json")))
            return 1
        print("OK property=%s: %d traces (%d events) and %d design models, %d states, %.1f s" % (
            self.pid, ntraces, nevents, len(dres), states, time.time() - t0))
        return 0
