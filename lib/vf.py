"""Runner library: build drivers, run TLC (model checking, behaviour generation, trace validation),
report violations and write evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPECS = os.path.join(VERIF, "specs")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


class Violation(Exception):
    pass


def known_findings(pid):
    """key -> text of the recorded (unrepaired) defects of a property"""
    out = {}
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d/%s" % (pid, self.seed, self.tier))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.model_runs = []
        self.action_counts = {}
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.findings_hit = set()

    @property
    def quick(self):
        return self.tier == "quick"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- build -------------------------------------------------------------
    def make(self, *targets, xflags=None, build=None):
        b = build or BUILD
        os.makedirs(b, exist_ok=True)
        cmd = ["make", "-s", "-j", "8", "-f", os.path.join(VERIF, "harness/Makefile"),
               "REPO=" + REPO, "B=" + b]
        if xflags:
            cmd.append("XFLAGS=" + xflags)
        # headers first, so that dependency files never race with generation
        subprocess.run(cmd + [os.path.join(b, "gen/stamp")], check=True)
        p = subprocess.run(cmd + [os.path.join(b, "drv", t) for t in targets],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            sys.stdout.write(p.stdout[-6000:])
            raise CheckError("build failed")
        self.log("built", *targets)
        return [os.path.join(b, "drv", t) for t in targets]

    # ---- drivers -----------------------------------------------------------
    def run(self, argv, stdin=None, timeout=300, env=None, cwd=None, ok=(0,)):
        """Run a driver. A crash or hang of the code under test is an observation, not an error of
        the check: it is returned to the caller as (rc, stdout, stderr)."""
        e = dict(os.environ)
        e.setdefault("OPENBLAS_NUM_THREADS", "1")
        e.setdefault("OMP_NUM_THREADS", "4")
        e["TMPDIR"] = self.scratch
        if env:
            e.update(env)
        try:
            p = subprocess.run(argv, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout, env=e, cwd=cwd or self.scratch,
                               errors="replace")
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            def s(v):
                return v.decode("utf8", "replace") if isinstance(v, bytes) else (v or "")
            return "timeout", s(x.stdout), s(x.stderr)

    def record(self, argv, tracefile, **kw):
        """Run a driver that prints ndjson events; store them; append a Crash event when the driver
        does not end normally. Returns the list of events."""
        rc, out, err = self.run(argv, **kw)
        ev = []
        for line in out.splitlines():
            if line.startswith("{"):
                try:
                    ev.append(json.loads(line))
                except ValueError:
                    pass  # cut off by a crash
        if rc != 0:
            self.log("driver ended with", rc, err[-600:])
            ev.append({"event": "Crash", "rc": str(rc), "msg": err[-300:]})
        self.write_trace(tracefile, ev)
        return ev

    def write_trace(self, path, events):
        with open(path, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")

    # ---- TLC ---------------------------------------------------------------
    def _tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=600, heap="4g", props=()):
        meta = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        e = dict(os.environ)
        if env:
            e.update(env)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss1g",
               *props, "-cp", CP, "tlc2.TLC", "-config", os.path.join(SPECS, cfg),
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra,
               os.path.join(SPECS, module + ".tla")]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, env=e, cwd=self.scratch, errors="replace")
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            out = x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
            rc = "timeout"
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    @staticmethod
    def _counts(out):
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            pass
        if not m:
            m2 = re.search(r"The number of states generated: ([\d,]+)", out)
            if m2:
                n = int(m2.group(1).replace(",", ""))
                return n, n
            return 0, 0
        return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))

    def model(self, module, cfg=None, env=None, workers=8, timeout=600, extra=(), expect_ok=True):
        """Model-check the specification itself. A failure here is a defect of the specification
        (an error of the check), never a finding about the code."""
        cfg = cfg or module + ".cfg"
        rc, out = self._tlc(module, cfg, env, workers, ("-deadlock", *extra), timeout)
        gen, dist = self._counts(out)
        ok = rc == 0
        self.log("model", module, cfg, "ok" if ok else ("violated, as expected" if not expect_ok else "FAILED rc=%s" % rc), "generated", gen,
                 "distinct", dist)
        if ok != expect_ok:
            sys.stdout.write(out[-5000:])
            raise CheckError("specification %s/%s: unexpected TLC result" % (module, cfg))
        self.transitions += gen
        self.states += dist
        self.model_runs.append({"module": module, "cfg": cfg, "generated": gen, "distinct": dist,
                                "expected_violation": not expect_ok})
        return out

    def generate(self, module, cfg=None, num=100, depth=20, env=None, timeout=300, mode="simulate",
                 seed=None):
        """Let TLC produce behaviours: the spec prints `@@BEHAVIOUR@@<json>` lines."""
        cfg = cfg or module + ".cfg"
        if mode == "simulate":
            extra = ("-deadlock", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed",
                     str(seed if seed is not None else self.seed))
        else:
            extra = ("-deadlock",)
        rc, out = self._tlc(module, cfg, env, 1, extra, timeout)
        beh = []
        for line in out.splitlines():
            k = line.find("@@BEHAVIOUR@@")
            if k >= 0:
                t = line[k + 13:].rstrip()
                if t.endswith('"'):
                    t = t[:-1]
                try:
                    beh.append(json.loads(t.replace('\\"', '"').replace("\\\\", "\\")))
                except ValueError:
                    raise CheckError("bad behaviour line: " + line[:300])
        gen, dist = self._counts(out)
        if rc not in (0,) or not beh:
            k = out.find("Error:")
            sys.stdout.write(out[k:k + 3000] if k >= 0 else out[-4000:])
            raise CheckError("behaviour generation failed for " + module)
        self.transitions += gen
        self.states += dist
        self.log("generated", len(beh), "behaviours from", module, cfg, "states", gen)
        return beh

    def validate(self, module, tracefile, cfg=None, env=None, timeout=600, ntraces=1, what="",
                 heap="6g"):
        """Trace validation. Returns None when the trace is accepted, else a dict."""
        n = sum(1 for _ in open(tracefile))
        if n == 0:
            raise CheckError("empty trace " + tracefile)
        cfg = cfg or module + ".cfg"
        e = {"TRACE": tracefile}
        e.update(env or {})
        rc, out = self._tlc(module, cfg, e, 1, ("-deadlock",), timeout, heap)
        if rc != 0 and ("StackOverflowError" in out or "OutOfMemoryError" in out):
            # says something about TLC, not about the trace
            k = out.find("Error:")
            raise CheckError("TLC ran out of memory on %s: %s" % (tracefile, out[k:k + 400]))
        gen, dist = self._counts(out)
        m = None
        for m in re.finditer(r"@@MATCHED@@\"?, *(\d+)", out):
            pass
        matched = int(m.group(1)) if m else None
        if matched is None and "Error:" in out:
            # evaluation error in the middle of the trace: the last state TLC printed tells where
            ls = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)]
            if ls:
                matched = max(ls) - 1
        ok = rc == 0 and matched == n
        self.transitions += gen
        self.states += dist
        if ok:
            self.traces += ntraces
            self.events += n
            self.log("trace accepted:", what or os.path.basename(tracefile), n, "events",
                     "states", dist)
            return None
        if matched is None or rc == "timeout" or (matched == n and rc != 0):
            sys.stdout.write(out[-5000:])
            raise CheckError("TLC failed on trace %s (rc=%s)" % (tracefile, rc))
        lines = open(tracefile).read().splitlines()
        bad = lines[matched] if matched < n else ""
        # an evaluation error of TLC while processing the next event means that the event does not
        # even have the shape the specification speaks about: also a rejection, but say so
        err = ""
        k = out.find("Error:")
        if k >= 0:
            err = out[k:k + 1500]
        return {"module": module, "matched": matched, "of": n, "event": bad,
                "context": lines[max(0, matched - 6):matched], "tlc": err, "rc": rc}

    def require(self, module, tracefile, **kw):
        """Validate; on a rejection re-run TLC on the same trace and report when it repeats."""
        r = self.validate(module, tracefile, **kw)
        if r is None:
            return
        r2 = self.validate(module, tracefile, **kw)
        if r2 is None or r2["matched"] != r["matched"]:
            raise CheckError("rejection of %s did not repeat: first %s, then %s" % (tracefile, r, r2))
        self.fail(kw.get("what") or os.path.basename(tracefile), r, tracefile)

    def fail(self, what, detail, tracefile=None):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
        keep = None
        if tracefile and os.path.exists(tracefile):
            keep = os.path.join(d, "%s-%s-%d.ndjson" % (self.pid, self.tier, self.seed))
            shutil.copy(tracefile, keep)
        json.dump({"property": self.pid, "what": what, "detail": detail, "trace": keep,
                   "seed": self.seed, "tier": self.tier}, open(path, "w"), indent=1, default=str)
        self.log("violation:", what)
        if isinstance(detail, dict):
            for k in ("matched", "of", "event", "tlc"):
                if k in detail:
                    print("    %s: %s" % (k, str(detail[k])[:1500]))
        else:
            print("    ", str(detail)[:1500])
        self.vpath = path
        raise Violation(what)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def count(self, name, n=1):
        self.action_counts[name] = self.action_counts.get(name, 0) + n

    def count_events(self, events):
        for e in events:
            self.count(e.get("event", "?"))

    def finding(self, fid, text):
        self.findings_hit.add(fid)
        print("KNOWN-FINDING: property=%s %s" % (self.pid, text), flush=True)

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "events_validated": self.events,
                           "event_counts": dict(sorted(self.action_counts.items())),
                           "model_runs": self.model_runs, "samples": self.samples or ["none"],
                           **self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": violations}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main(pid, fn, tier):
    c = Check(pid, tier)
    rc = 2
    try:
        fn(c)
        c.evidence(0)
        c.log("held: %d states, %d traces, %d events" % (c.states, c.traces, c.events))
        rc = 0
    except Violation:
        c.evidence(1)
        print("VIOLATION property=%s replay=%s" % (pid, c.vpath), flush=True)
        rc = 1
    except CheckError as x:
        print("CHECK ERROR: %s" % x, flush=True)
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
    return rc
