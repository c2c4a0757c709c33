"""Shared machinery of the checks: building harnesses from /repo, running TLC, reporting."""
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4
CXX = "g++"
CXXFLAGS = ["-std=c++14", "-O0", "-w", "-fwrapv", "-I" + os.path.join(REPO, "include"), "-I" + HARN]

class CheckError(Exception):
    """The check itself could not be carried out (neither held nor violated)."""

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = os.path.join(VERIF, "build", prop + "-" + tier)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replay_dir = os.path.join(VERIF, "build", "replay")
        os.makedirs(self.replay_dir, exist_ok=True)
        self.t0 = time.time()
        self.violations = []          # (text, replay path)
        self.known = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0,
                    "programs_compiled": 0, "parts": []}
        self.samples = []
        self.assumptions = []
        self.thorough = tier == "thorough"
        self._java = None

    def clean(self):
        """drop build output; keep what a violation report refers to"""
        if not os.environ.get("VT_KEEP"): shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *a): return os.path.join(self.dir, *a)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def violation(self, what, data=None):
        """Record a violation with a replay file describing it."""
        n = len(self.violations)
        rp = os.path.join(self.replay_dir, "%s-%d.json" % (self.prop, n))
        with open(rp, "w") as f:
            json.dump({"property": self.prop, "what": what, "data": data}, f, indent=1)
        self.violations.append((what, rp))

    def part(self, name, **kw):
        self.cov["parts"].append(dict(name=name, **kw))

    # ------------------------------------------------------------------ java classes
    def java_classes(self):
        if self._java is None:
            d = self.path("classes")
            os.makedirs(d, exist_ok=True)
            r = subprocess.run(["javac", "-nowarn", "-cp", TLAJAR, "-d", d, os.path.join(VERIF, "java", "ZInt.java")],
                               capture_output=True, text=True)
            if r.returncode: raise CheckError("javac failed: " + r.stderr[-2000:])
            self._java = d
        return self._java

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=None, extra=(), override=True, heap="6g", timeout=840, name=None,
            spec_dir=SPEC):
        """Run TLC on spec/<module>.tla with the given cfg text."""
        name = name or module
        d = self.path("tlc-" + name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cfgf = os.path.join(d, module + ".cfg")
        with open(cfgf, "w") as f: f.write(cfg)
        cp = TLAJAR + ":" + CMJAR + ((":" + self.java_classes()) if override else "")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC",
               "-workers", str(workers or NPROC), "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE",
               "-config", cfgf] + list(extra) + [module + ".tla"]
        e = dict(os.environ); e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=spec_dir, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s after %ss" % (name, timeout))
        out = r.stdout
        with open(os.path.join(d, "out.txt"), "w") as f: f.write(out + "\n" + r.stderr)
        shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
        return TlcResult(name, r.returncode, out, time.time() - t)

    # ------------------------------------------------------------------ C++
    def compile_many(self, jobs, flags=None, cxx=None):
        """jobs: list of (source path, object/exe path, extra args). Returns dict exe -> (rc, stderr)."""
        def one(j):
            src, exe, extra = j
            cmd = [cxx or CXX] + (flags or CXXFLAGS) + list(extra) + [src, "-o", exe]
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
                return exe, (r.returncode, r.stderr)
            except subprocess.TimeoutExpired:
                return exe, (-1, "compiler timed out")
        with cf.ThreadPoolExecutor(NPROC) as ex:
            return dict(ex.map(one, jobs))

class TlcResult:
    def __init__(self, name, rc, out, wall):
        self.name, self.rc, self.out, self.wall = name, rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated, self.distinct, self.left = map(int, m[-1]) if m else (0, 0, 0)
        self.lines = [l[1:-1].replace('\\"', '"') for l in out.splitlines() if l.startswith('"') and l.endswith('"')]
        self.rejected = {}
        for l in self.lines:
            if l.startswith("REJ "):
                m = re.match(r"REJ (\d+) (.*)$", l)
                self.rejected[int(m.group(1))] = [int(x) for x in re.findall(r"-?\d+", m.group(2))]
        self.ok = "Model checking completed. No error has been found." in out
    def error(self):
        m = re.search(r"^(Error: .*)", self.out, re.S | re.M)
        return (m.group(1) if m else self.out)[:3000]

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

# ---------------------------------------------------------------------- known findings
KNOWN_FILE = os.path.join(VERIF, "known_findings.json")
def known_findings(prop):
    if not os.path.exists(KNOWN_FILE): return []
    with open(KNOWN_FILE) as f: k = json.load(f)
    return [x for x in k["findings"] if prop in x["properties"]]

# ---------------------------------------------------------------------- reporting
def finish(ctx, level):
    cov = ctx.cov
    cov["samples"] = ctx.samples[:20]
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - ctx.t0, 2), "assumptions": ctx.assumptions,
          "violations": len(ctx.violations)}
    if ctx.violations: ev["coverage"]["violating_cases"] = [w for w, p in ctx.violations[:20]]
    if ctx.known: ev["coverage"]["known_findings"] = sorted(set(ctx.known))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in sorted(set(ctx.known)):
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k))
    if ctx.violations:
        for w, p in ctx.violations[:10]: print("  violated:", w)
        if len(ctx.violations) > 10: print("  ... and %d more" % (len(ctx.violations) - 10))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, ctx.violations[0][1]))
        return 1
    print("OK property=%s tier=%s states=%d evaluations=%d wall=%.1fs" % (
        ctx.prop, ctx.tier, cov["states"], cov["evaluations"], time.time() - ctx.t0))
    return 0
