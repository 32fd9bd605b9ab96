"""Runs the drivers (real wildwood) and TLC, collects coverage and violations, and writes the evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
CLASSES = os.path.join(VERIF, "build", "classes")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def compile_override():
    src = os.path.join(VERIF, "java", "Float64.java")
    out = os.path.join(CLASSES, "Float64.class")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return
    os.makedirs(CLASSES, exist_ok=True)
    subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", CLASSES, src], check=True)


class Tlc:
    """Result of one TLC run."""

    def __init__(self, name, rc, out):
        self.name, self.rc, self.out = name, rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated, self.distinct, self.left = map(int, m[-1]) if m else (0, 0, 0)
        self.bad = []
        for line in out.splitlines():
            m = re.match(r'^<<"BAD", "(.*)", (\d+), (.*)>>$', line)
            if m:
                self.bad.append((m.group(1), int(m.group(2)), m.group(3)))
        self.violated = "is violated" in out or "is false" in out.lower() and "postcondition" in out.lower()
        self.ok = rc == 0


def moved(text):
    """The driver (not wildwood) imports a name that is no longer there."""
    lines = text.strip().splitlines()
    frames = [l for l in lines if l.strip().startswith('File "')]
    return bool(frames) and "/drivers/" in frames[-1] and lines[-1].startswith(("ImportError", "ModuleNotFoundError"))


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.evidence_dir = os.path.join(VERIF, "evidence")
        os.makedirs(self.evidence_dir, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, "work"))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.models, self.violations = [], [], [], []
        self.unobservable = []
        self.thorough = tier == "thorough"
        self.lock = threading.Lock()
        compile_override()

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=8, heap="6g", args=(), timeout=800, name=None):
        """cfg: text of the configuration. Returns a Tlc."""
        name = name or module
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        path = os.path.join(d, "model.cfg")
        with open(path, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp",
               ":".join([TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar", CLASSES]), "tlc2.TLC",
               "-metadir", os.path.join(d, "states"), "-cleanup", "-noGenerateSpecTE", "-workers", str(workers),
               "-config", path, *args, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
            r = Tlc(name, p.returncode, p.stdout)
        except subprocess.TimeoutExpired as exc:
            out = exc.stdout or b""
            r = Tlc(name, -1, (out if isinstance(out, str) else out.decode(errors="replace")) + "\nTIMEOUT")
        shutil.rmtree(d, ignore_errors=True)
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
        return r

    def model(self, module, cfg, **kw):
        """Model checks the specification itself. An error here is an error of this framework, not of the code."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            sys.stderr.write(r.out[-6000:] + "\n")
            raise RuntimeError("model checking of %s failed (rc %s)" % (module, r.rc))
        with self.lock:
            self.models.append(dict(module=module, distinct=r.distinct, generated=r.generated))
        return r

    def validate(self, module, clauses, traces, extra="", timeout=800, consts="", workers=8):
        """Checks recorded traces against a trace specification."""
        n, ev, ids = 0, 0, {}
        with open(traces) as f:
            for line in f:
                if not line.strip():
                    continue
                d = json.loads(line)
                n += 1
                ev += len(d["ev"])
                ids[d["id"]] = line
                if len(self.samples) < 3 and len(line) < 6000 and d["ev"] and d["ev"][0].get("t") != "error":
                    self.samples.append(d)
        if n == 0:
            self.notes.append("no trace was recorded for " + module)
            return None
        cfg = "SPECIFICATION Spec\nCONSTANT CLAUSES = {%s}\n%s\nINVARIANT Accepted\nPOSTCONDITION Consumed\nVIEW View\n%s\n" \
              "CHECK_DEADLOCK FALSE\n" % (", ".join('"%s"' % c for c in clauses), consts, extra)
        r = self.tlc(module, cfg, env={"TRACES": traces}, timeout=timeout, workers=workers)
        self.traces += n
        self.events += ev
        if r.ok:
            return r
        if r.bad:
            tid, i, clause = r.bad[0]
            self.violation("%s: event %d of trace %s: %s" % (module, i, tid, clause), ids.get(tid), r)
        elif r.rc in (75, 76) and not re.search("StackOverflow|OutOfMemory|GC overhead", r.out) and re.search(r"tid = (\d+)", r.out):
            # an event that the specification does not even give a meaning to (a value outside every domain it knows)
            tid = list(ids)[int(re.findall(r"tid = (\d+)", r.out)[-1]) - 1]
            i = (re.findall(r"\bi = (\d+)", r.out) or ["?"])[-1]
            self.violation("%s: event %s of trace %s: outside the domain of the specification" % (module, i, tid), ids.get(tid), r)
        else:
            sys.stderr.write(r.out[-6000:] + "\n")
            raise RuntimeError("trace validation with %s failed (rc %s)" % (module, r.rc))
        return r

    # ------------------------------------------------------------ drivers
    def driver(self, script, args=(), shards=8, timeout=600, env=None, name=None):
        """Runs a driver in parallel processes against /repo's working tree; returns the merged trace file."""
        name = name or os.path.splitext(script)[0]
        out = os.path.join(self.work, name + ".ndjson")
        cache = tempfile.mkdtemp(prefix="numba-", dir=self.work)
        procs = []
        for s in range(shards):
            e = dict(os.environ)
            e.update(PYTHONPATH=REPO, PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                     NUMBA_CACHE_DIR=os.path.join(cache, str(s)), http_proxy="http://127.0.0.1:9", https_proxy="http://127.0.0.1:9",
                     VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                     MKL_NUM_THREADS="1", TMPDIR=self.work, JOBLIB_TEMP_FOLDER=self.work)
            e.update(env or {})
            part = "%s.%d" % (out, s)
            log = open(part + ".log", "w")
            procs.append((part, log, subprocess.Popen(
                [PY, os.path.join(VERIF, "drivers", script), self.prop, part, str(s), str(shards), *map(str, args)],
                cwd=self.work, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)))
        deadline = time.time() + timeout
        for part, log, p in procs:
            try:
                p.wait(max(0.1, deadline - time.time()))
                late = False
            except subprocess.TimeoutExpired:
                late = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            log.close()
            text = open(part + ".log", errors="replace").read()
            if late:
                self.violation("%s did not end within %d s: the code hangs or became very slow" % (script, timeout), text[-3000:])
            elif p.returncode != 0:
                # a driver handles every exception of the code; what is left are crashes of the interpreter,
                # failing imports of wildwood, and errors of the driver itself
                if p.returncode > 0 and moved(text):
                    self.unobservable.append(text.strip().splitlines()[-1][:200])
                elif p.returncode < 0 or "/wildwood/" in text:
                    self.violation("%s: the code crashed (exit %s): %s" % (script, p.returncode, text.strip()[-300:]), text[-3000:])
                else:
                    sys.stderr.write(text[-6000:] + "\n")
                    raise RuntimeError("driver %s failed" % script)
        shutil.rmtree(cache, ignore_errors=True)
        with open(out, "w") as f:
            for part, _, _ in procs:
                if os.path.exists(part):
                    with open(part) as g:
                        for line in g:
                            if not line.endswith("\n"):
                                continue
                            if line.startswith('{"unobservable"'):
                                self.unobservable.append(json.loads(line)["unobservable"])
                            else:
                                f.write(line)
                    os.remove(part)
        return out

    # ------------------------------------------------------------ verdict
    def violation(self, what, replay=None, tlc=None):
        with self.lock:
            k = len(self.violations) + 1
            path = os.path.join(self.evidence_dir, "%s-replay-%d.json" % (self.prop, k))
            d = dict(property=self.prop, what=what, seed=self.seed, tier=self.tier)
            if replay is not None:
                try:
                    d["trace"] = json.loads(replay)
                except Exception:
                    d["text"] = replay
            if tlc is not None:
                d["tlc"] = tlc.out[-4000:]
            with open(path, "w") as f:
                json.dump(d, f, indent=1)
            self.violations.append((what, path))

    def finish(self, rule, assumptions):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, models=self.models, rule=rule, samples=self.samples[:3])
        if self.notes:
            cov["notes"] = self.notes
        if self.unobservable:
            cov["unobservable"] = sorted(set(self.unobservable))[:10]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        with open(os.path.join(self.evidence_dir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                if line.startswith("finding: property=%s " % self.prop):
                    print("KNOWN-FINDING: " + line[len("finding: "):].strip())
        for what, path in self.violations:
            print(what)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if not self.violations:
            print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.0fs" % (
                self.prop, self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0
