"""Shared machinery of all checks: TLC runs, builds, verdicts, evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
INC = os.path.join(REPO, "sources", "include")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
OUT = os.path.join(ROOT, "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class Machinery(Exception):
    """The check itself failed: neither a pass nor a violation."""


class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{prop}/{seed}")
        os.makedirs(OUT, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=f"{prop}-", dir=OUT)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []

    def path(self, *p):
        return os.path.join(self.work, *p)

    def note(self, msg):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s] {msg}", flush=True)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(x)

    # ------------------------------------------------------------- build
    def build(self, src, out, cxx="g++", flags=("-O1", "-g"), defs=(), libs=(), stub=True, extra_src=(), std="c++17", fallback=None):
        """Compile a harness against /repo's headers.  A harness uses public
        API only, so if it no longer compiles although the headers it
        includes do, a valid program is rejected: a violation."""
        cmd = [cxx, f"-std={std}", "-w", *flags, *[f"-D{d}" for d in defs]]
        if stub:
            cmd += ["-I", os.path.join(HARN, "stub")]
        cmd += ["-I", HARN, "-I", os.path.dirname(os.path.abspath(src)), "-I", INC, src, *extra_src, "-o", out, *libs, "-lpthread"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode == 0:
            return out
        if "Killed" in r.stderr or "due to signal 9" in r.stderr or "out of memory" in r.stderr:
            time.sleep(5)     # the machine, not the program: once more
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode == 0:
                return out
            if "Killed" in r.stderr or "out of memory" in r.stderr:
                raise Machinery("the compiler was killed:\n" + r.stderr[:2000])
        if fallback:   # parts of the harness that lean on internals left out
            self.note(f"building {os.path.basename(src)} without its optional parts ({fallback})")
            return self.build(src, out, cxx, flags, (*defs, fallback), libs, stub, extra_src, std)
        log = r.stderr[:6000]
        probe = self.path("probe.cpp")
        with open(probe, "w") as f:
            f.write("#include <cstdio>\n#include <vector>\nint main(){std::vector<int> v{1};return v[0]-1;}\n")
        if subprocess.run([cxx, "-std=c++17", probe, "-o", self.path("probe")], capture_output=True).returncode:
            raise Machinery("compiler does not work:\n" + log)
        raise Violation("a program using the documented interface no longer compiles",
                        {"command": " ".join(cmd), "errors": log, "source": open(src).read()[:200000] if os.path.getsize(src) < 200000 else src})

    def build_all(self, jobs):
        """jobs: list of kwargs for build(); compiled in parallel."""
        with ThreadPoolExecutor(CPUS) as ex:
            futs = [ex.submit(lambda kw=kw: self.build(**kw)) for kw in jobs]
            return [f.result() for f in futs]

    def run(self, cmd, timeout=300, ok=(0,), **kw):
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
        except subprocess.TimeoutExpired:
            raise Violation("the code does not end", {"command": cmd})
        if r.returncode < 0:
            raise Violation(f"the code ends the program (signal {-r.returncode})", {"command": cmd, "last output": r.stdout[-500:], "errors": r.stderr[-1500:]})
        if ok is not None and r.returncode not in ok:
            raise Machinery(f"exit {r.returncode}: {' '.join(cmd)}\n{r.stdout[-2000:]}\n{r.stderr[-2000:]}")
        return r

    def run_code(self, exe, what, timeout=300):
        """Run a harness whose death or endless loop is the code's doing."""
        try:
            r = subprocess.run([exe], capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as t:
            raise Violation(f"{what}: the code does not end", {"last output": (t.stdout or b"")[-500:].decode(errors="replace") if isinstance(t.stdout, bytes) else str(t.stdout)[-500:]})
        if r.returncode:
            raise Violation(f"{what}: the code ends the program (status {r.returncode})", {"last output": r.stdout[-500:], "errors": r.stderr[-1500:]})
        return r.stdout

    # --------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=None, timeout=600, heap="6g", deadlock=False, extra=(), simulate=None):
        """Run TLC on spec/<module>.tla with the configuration text cfg."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
               "-config", "M.cfg", "-workers", str(workers or CPUS), "-metadir", os.path.join(d, "states"),
               "-noGenerateSpecTE", "-nowarning"]
        if not deadlock:
            cmd += ["-deadlock"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra) + [module + ".tla"]
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as o:
            try:
                r = subprocess.run(cmd, cwd=d, env=e, stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Machinery(f"TLC timed out on {module}")
        res = TlcResult(r.returncode, outp)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return res

    def model(self, module, cfg, **kw):
        """An exhaustive run that has to succeed: the specification itself
        satisfies its invariants.  A failure here is the machinery's."""
        r = self.tlc(module, cfg, **kw)
        if r.rc != 0 or not r.complete:
            raise Machinery(f"model {module} does not check:\n" + r.tail())
        self.add("states", r.distinct)
        self.add("transitions", r.generated)
        return r

    def finish(self, level="model_checking", **more):
        self.cov.update(more)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2)}
        return ev


class TlcResult:
    def __init__(self, rc, path):
        self.rc, self.path = rc, path
        self.lines = []
        self.text = []
        self.generated = self.distinct = 0
        self.complete = False
        self.errors = []
        with open(path, errors="replace") as f:
            for ln in f:
                if ln.startswith('"'):
                    self.lines.append(ln)
                    continue
                self.text.append(ln)
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", ln)
                if m:
                    self.generated, self.distinct = int(m.group(1)), int(m.group(2))
                if ln.startswith("Error:"):
                    self.errors.append(ln.strip())
                if "Model checking completed. No error has been found" in ln:
                    self.complete = True

    def printed(self, prefix):
        """JSON payloads of PrintT(prefix \\o ToJson(..)) lines."""
        for ln in self.lines:
            s = json.loads(ln)
            if s.startswith(prefix):
                yield json.loads(s[len(prefix):])

    def raw(self, prefix):
        for ln in self.lines:
            s = json.loads(ln)
            if s.startswith(prefix):
                yield s[len(prefix):]

    def tail(self, n=60):
        return "".join(self.text[-n:])

    def last_state(self, var):
        """Last value printed for a state variable in an error trace."""
        v = None
        for ln in self.text:
            m = re.match(r"/\\ %s = (.*)" % re.escape(var), ln) or re.match(r"%s = (.*)" % re.escape(var), ln)
            if m:
                v = m.group(1).strip()
        return v


def save_replay(ctx, data):
    d = os.path.join(OUT, "replay", ctx.prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{ctx.tier}-{ctx.seed}.json")
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def known_findings(prop):
    """Entries 'known: property=<id> key=<key> <text>' of known_findings.txt."""
    res = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: check.py <property> [--tier quick|thorough]", file=sys.stderr)
        sys.exit(2)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    code = 2
    try:
        try:
            checks[prop](ctx)
            ev = ctx.finish()
            ev["violations"] = 0
            code = 0
            print(f"OK property={prop} {ev['wall_s']}s states={ctx.cov['states']} "
                  f"transitions={ctx.cov['transitions']} traces={ctx.cov['traces_validated_against_impl']}")
        except Violation as v:
            ev = ctx.finish()
            ev["violations"] = 1
            p = save_replay(ctx, {"property": prop, "what": v.what, "data": v.data})
            print(f"{v.what}")
            print(json.dumps(v.data, default=str)[:1500])
            print(f"VIOLATION property={prop} replay={p}")
            code = 1
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    except Machinery as m:
        print("CHECK ERROR:", m, file=sys.stderr)
        code = 2
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
    sys.exit(code)
