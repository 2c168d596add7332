"""Running TLC and the drivers, and collecting what they report."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "harness", "drivers")
REPO = os.environ.get("CELEST_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"


class MachineryError(Exception):
    pass


class Broken(Exception):
    """The implementation failed on a scenario of the specification, or what it
    did lies outside the values the specification ranges over."""

    def __init__(self, what, text):
        super().__init__(text)
        self.what, self.text = what, text


def raised_in_celest(text):
    """Did an exception leave the implementation, and not one of the sandbox's?"""
    last = [ln for ln in text.splitlines() if re.match(r"[A-Za-z_][\w.]*(Error|Exception|Iteration|Warning)\b", ln)]
    if not last or re.match(r"(ImportError|ModuleNotFoundError|MemoryError|OSError|BlockingIOError|TimeoutError)",
                            last[-1]):
        return False
    return 'File "%s' % os.path.join(os.path.realpath(REPO), "celest") in text \
        or 'File "%s' % os.path.join(REPO, "celest") in text


class Ctx:
    """One run of a check: its property, tier, seed and scratch directory."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.tmp = tempfile.mkdtemp(prefix="celestmbv.")
        self.violations = []      # (clause, trace description, detail)
        self.coverage = []        # what was covered, human readable
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.t0 = time.time()

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def sample(self, traces):
        """Keep a few recorded events, spread over the traces."""
        n = len(traces)
        for i in sorted({0, n // 2, n - 1}):
            ev = traces[i]["ev"]
            text = json.dumps(ev[len(ev) // 2])
            self.samples.append(json.loads(text) if len(text) < 1500 else text[:1500] + "...")

    def count(self, key, n):
        self.counts[key] = self.counts.get(key, 0) + n

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, args=(), workers=4, timeout=800):
        meta = tempfile.mkdtemp(dir=self.tmp, prefix="md.")
        cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg"),
               *args, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        # TLC unpacks its modules in java.io.tmpdir: keep that in the scratch
        jopts = "-Djava.io.tmpdir=%s -Xmx6g -Xss64m" % meta
        e["JAVA_TOOL_OPTIONS"] = jopts
        try:
            r = subprocess.run(cmd, cwd=meta, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on " + module)
        return r.returncode, r.stdout + r.stderr

    def model_check(self, module, cfg=None, workers=4, timeout=800, env=None):
        """Check the specification itself; an error there is ours, not the code's."""
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, env=env)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or "No error has been found" not in out or not m:
            raise MachineryError("model checking %s failed:\n%s" % (module, out[-3000:]))
        self.count("states", int(m.group(2)))
        self.count("transitions", int(m.group(1)))
        self.coverage.append("TLC, exhaustive: %s (%s): %s states generated, %s distinct, no error"
                             % (module, cfg or module, m.group(1), m.group(2)))
        self.log("TLC", module, cfg or "", m.group(2), "distinct states, ok")

    def generate(self, module, num, depth, seed, env=None):
        """Behaviours of the specification, by TLC simulation."""
        rc, out = self.tlc(module, env=env, workers=1,
                           args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
        got = []
        for line in out.splitlines():
            if line.startswith('"GEN '):
                got.append(json.loads(json.loads(line)[4:]))
        if not got:
            raise MachineryError("no behaviours generated by %s:\n%s" % (module, out[-3000:]))
        self.count("generated_behaviours", len(got))
        return got

    def enumerate(self, module, cfg=None, env=None, workers=1):
        """Scenarios a specification prints while its state space is explored."""
        rc, out = self.tlc(module, cfg, env=env, workers=workers)
        got = []
        for line in out.splitlines():
            if line.startswith('"GEN '):
                got.append(json.loads(json.loads(line)[4:]))
        if rc != 0 or "No error has been found" not in out or not got:
            raise MachineryError("enumeration of %s failed:\n%s" % (module, out[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.count("states", int(m.group(2)))
            self.count("transitions", int(m.group(1)))
        self.count("generated_behaviours", len(got))
        return got

    # ------------------------------------------------------------- driver
    def drive(self, driver, scenario, timeout=700):
        """Run the implementation on scenarios; returns the recorded traces."""
        src = os.path.join(self.tmp, driver + ".in.json")
        dst = os.path.join(self.tmp, driver + ".out.json")
        with open(src, "w") as f:
            json.dump(scenario, f)
        e = dict(os.environ)
        e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=REPO,
                 XDG_CONFIG_HOME="/opt/vp/astropy-config", HOME="/root", MPLBACKEND="Agg",
                 OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        scratch = os.path.join(self.tmp, "cwd")
        os.makedirs(scratch, exist_ok=True)
        try:
            r = subprocess.run([PYTHON, "-W", "ignore", os.path.join(DRIVERS, driver + ".py"), src, dst],
                               cwd=scratch, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("driver %s timed out" % driver)
        if r.returncode > 0 and raised_in_celest(r.stderr):
            raise Broken("driver", "driver %s: the implementation raised on a scenario in which it may not:\n%s"
                         % (driver, r.stderr[-4000:]))
        if r.returncode != 0:
            raise MachineryError("driver %s failed:\n%s" % (driver, (r.stdout + r.stderr)[-4000:]))
        with open(dst) as f:
            traces = json.load(f)
        return traces

    # --------------------------------------------------- trace validation
    def validate(self, module, traces, workers=6, env=None, timeout=800, what=None):
        """Check recorded traces against a trace specification."""
        if not traces:
            raise MachineryError("no traces for " + module)
        path = os.path.join(self.tmp, module + ".traces.json")
        with open(path, "w") as f:
            json.dump(traces, f)
        e = {"TRACES": path}
        e.update(env or {})
        rc, out = self.tlc(module, env=e, workers=workers, timeout=timeout)
        done, rejects = set(), []
        for line in out.splitlines():
            if line.startswith('"DONE '):
                done.add(int(json.loads(line)[5:]))
            elif line.startswith('"REJECT '):
                m = re.match(r"<<(\d+), (\d+), \{(.*)\}>>$", json.loads(line)[7:])
                clauses = re.findall(r'"([^"]+)"', m.group(3))
                rejects.append((int(m.group(1)), int(m.group(2)), sorted(clauses)))
        if len(done) != len(traces) and re.search(r"TLC threw an unexpected exception|evaluating|Evaluating", out) \
                and not re.search(r"OutOfMemory|StackOverflow|No space left|could not (read|open)|Parsing or semantic",
                                  out):
            raise Broken("values", "%s: a recorded event holds values outside the specification's:\n%s"
                         % (module, out[-4000:]))
        if len(done) != len(traces):
            raise MachineryError("%s: %d of %d traces consumed:\n%s"
                                 % (module, len(done), len(traces), out[-4000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.count("states", int(m.group(2)))
            self.count("transitions", int(m.group(1)))
        nev = sum(len(t["ev"]) for t in traces)
        self.sample(traces)
        self.count("traces", len(traces))
        self.count("events", nev)
        self.coverage.append("TLC, trace validation: %s%s: %d traces, %d events of the implementation"
                             % (module, " (%s)" % what if what else "", len(traces), nev))
        self.log("validated", len(traces), "traces,", nev, "events against", module,
                 "-", len(rejects), "rejected events")
        for t, i, clauses in sorted(rejects):
            for c in clauses:
                if c.split(".")[0] == self.prop:
                    self.violations.append((c, module, t, i, traces[t - 1]))
        return rejects


def known_findings():
    """(property, identifier, text) of findings that are recorded, not repaired."""
    res = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    with open(path) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m:
                res.append(m.groups())
    return res
