"""Shared machinery: building drivers from /repo's current tree, running TLC, writing evidence."""
import json, os, re, shutil, subprocess, sys, time, hashlib, random, signal, resource, threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
HARN = os.path.join(HERE, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HDF5INC = "/usr/include/hdf5/serial"
HDF5LIB = "/usr/lib/x86_64-linux-gnu/hdf5/serial"


NUM_LOCK = threading.Lock()


def uses_num(module, seen=None):
    """Does a specification (transitively) extend Num?"""
    seen = seen if seen is not None else set()
    if module == "Num": return True
    seen.add(module)
    f = os.path.join(SPEC, module + ".tla")
    if not os.path.exists(f): return False
    txt = open(f).read()
    deps = set(re.findall(r"[A-Za-z0-9_]+", " ".join(re.findall(r"EXTENDS([^\n]*(?:,\s*\n[^\n]*)*)", txt) + re.findall(r"INSTANCE\s+(\w+)", txt))))
    return any(uses_num(m, seen) for m in deps - seen)


class ModelFailure(Exception):
    """The machinery itself failed (never reported as a violation)."""


class Violation(Exception):
    def __init__(self, what, detail=None):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail or {}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:  # simulation mode
            m = re.findall(r"number of states generated: ([\d,]+)|Progress: ([\d,]+) states checked", out)
            if m:
                self.generated = max(int((a or b).replace(",", "")) for a, b in m)
        d = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(d[-1]) if d else 0
        self.violated = re.findall(r"Error: (?:Invariant|Action property|Temporal propert\w+) (\S+) (?:is|was|were) violated", out)
        if "Temporal properties were violated" in out: self.violated.append("temporal")
        if "Deadlock reached" in out: self.violated.append("deadlock")
        self.ok = rc == 0 and "Model checking completed. No error has been found" in out or \
            (rc == 0 and "Error:" not in out)
        self.rejects = [eval(x.replace("<<", "(").replace(">>", ",)")) if False else x for x in re.findall(r'<<"REJECT".*?>>', out)]


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.out = os.path.join(HERE, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.known_hits = []
        self.notes = {}
        self.meta_n = 0

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def path(self, *p): return os.path.join(self.out, *p)

    def compile(self, exe, sources, flags=(), libs=(), std="c++11", cxx="g++", opt="-O1"):
        """Compile harness+repo sources in parallel into an executable."""
        bd = self.path("build_" + exe)
        os.makedirs(bd, exist_ok=True)
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + HARN, "-I" + os.path.join(HARN, "shim"), "-I" + bd, "-I" + HDF5INC]
        self.resource_paths(bd)
        procs, objs = [], []
        for s in sources:
            o = os.path.join(bd, os.path.basename(s).replace(".cpp", "") + ".o")
            objs.append(o)
            cmd = [cxx, "-std=" + std, opt, "-g1", "-pthread", "-w"] + list(flags) + inc + ["-c", s, "-o", o]
            procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for cmd, p in procs:
            o, _ = p.communicate()
            if p.returncode: raise ModelFailure("compile failed: %s\n%s" % (" ".join(cmd), o[-6000:]))
        target = self.path(exe)
        cmd = [cxx, "-pthread", "-rdynamic"] + list(flags) + objs + ["-L" + HDF5LIB] + list(libs) + ["-o", target]
        r = sh(cmd)
        if r.returncode: raise ModelFailure("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
        return target

    def resource_paths(self, bd):
        if os.path.exists(os.path.join(bd, "resource_paths.h")): return
        conf = os.path.join(REPO, "configure")
        os.makedirs(os.path.join(bd, "build"), exist_ok=True); os.makedirs(os.path.join(bd, "lib"), exist_ok=True)
        script = "SOURCE_PATH=%s; PREFIX=/usr/local; cd %s\n" % (REPO, bd)
        txt = open(conf).read().split("\n")
        on = False
        for line in txt:
            if line.startswith("INSTALL_FLAG_PREFIX="): on = True
            if on: script += line + "\n"
            if on and line.endswith("> build/resource_paths.h"): break
        r = sh(["bash", "-e"], input=script)
        p = os.path.join(bd, "build", "resource_paths.h")
        if not os.path.exists(p) or os.path.getsize(p) == 0: raise ModelFailure("resource_paths.h: " + r.stdout)
        shutil.move(p, os.path.join(bd, "resource_paths.h"))
        # the version header configure would generate
        num = re.search(r"^VERSION_NUM=(\d+)", "\n".join(txt), re.M)
        n = int(num.group(1)) if num else 101100
        os.makedirs(os.path.join(bd, "nuSQuIDS"), exist_ok=True)
        with open(os.path.join(REPO, "resources", "version.h.in")) as f: v = f.read()
        with open(os.path.join(bd, "nuSQuIDS", "version.h"), "w") as f:
            f.write(v.replace("__NUSQUIDS_VERSION__", str(n)).replace("__NUSQUIDS_VERSION_STR__", "%d.%d.%d" % (n // 100000, n // 100 % 1000, n % 100)))

    def run_driver(self, exe, args=(), input=None, timeout=300, env=None, cwd=None, maxout=48 << 20):
        """Run a driver; returns (rc, stdout, stderr). rc<0: signal; rc=124: timeout."""
        e = dict(os.environ); e.update(env or {})
        e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1")
        e.setdefault("UBSAN_OPTIONS", "halt_on_error=1:exitcode=98:print_stacktrace=0")
        self.run_n = getattr(self, "run_n", 0) + 1
        fo = self.path("stdout.%d.%d" % (threading.get_ident() % 1000003, self.run_n))
        def limit():  # a driver made to run wild by a defect must not fill the disk or memory
            resource.setrlimit(resource.RLIMIT_FSIZE, (maxout, maxout))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            with open(fo, "wb") as fh:
                p = subprocess.Popen([exe] + list(map(str, args)), stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                                     stdout=fh, stderr=subprocess.PIPE, env=e, cwd=cwd, preexec_fn=limit)
                try:
                    _, err = p.communicate(input.encode() if input is not None else None, timeout=timeout)
                    rc, err = p.returncode, err.decode(errors="replace")[-20000:]
                except subprocess.TimeoutExpired:
                    p.kill(); p.communicate()
                    rc, err = 124, "timeout"
            with open(fo, "rb") as fh: out = fh.read().decode(errors="replace")
        finally:
            if os.path.exists(fo): os.unlink(fo)
        return rc, out, err

    # ---------------------------------------------------------------- TLC
    def num_classes(self):
        """Compile the Java evaluation of spec/Num.tla (real arithmetic)."""
        with NUM_LOCK:
            d = self.path("classes")
            if not os.path.exists(os.path.join(d, "Num.class")):
                os.makedirs(d, exist_ok=True)
                r = sh(["javac", "-cp", JARS, "-d", d, os.path.join(SPEC, "java", "Num.java")])
                if r.returncode: raise ModelFailure("Num.java: " + r.stdout)
            return d

    def tlc(self, module, cfg=None, workers=None, env=None, timeout=600, extra=(), mem="6g", jopts=(), count=True, quiet=False):
        self.meta_n += 1
        meta = self.path("tlc%d" % self.meta_n)
        os.makedirs(meta, exist_ok=True)
        cfg = cfg or module + ".cfg"
        e = dict(os.environ); e.pop("JAVA_TOOL_OPTIONS", None); e.update({k: str(v) for k, v in (env or {}).items()})
        cp = (self.num_classes() + ":" if uses_num(module) else "") + JARS
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta] + list(jopts) + ["-cp", cp, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", meta, "-workers", str(workers or 4), "-config", cfg] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, errors="replace")
        except subprocess.TimeoutExpired:
            raise ModelFailure("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        r = TLCResult(p.returncode, p.stdout)
        if count:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
        if not quiet:
            self.log("TLC %s %s: rc=%d generated=%d distinct=%d" % (module, cfg, r.rc, r.generated, r.distinct))
        return r

    def model_check(self, module, cfg=None, **kw):
        """Exhaustive check of the design: any failure is a failure of the model, not of the code."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok: raise ModelFailure("model %s/%s does not satisfy its own properties:\n%s" % (module, cfg, r.out[-5000:]))
        return r

    def validate(self, module, events, cfg=None, name="trace", workers=1, timeout=800, **kw):
        """Validate recorded events against Trace spec; returns None if accepted or the index (0-based) of the first rejected event."""
        f = self.path(name + ".ndjson")
        with open(f, "w") as fh:
            for ev in events: fh.write(json.dumps(ev, separators=(",", ":")) + "\n")
        if not events: raise ModelFailure("empty trace")
        env = dict(kw.pop("env", None) or {}); env["TRACE"] = f
        r = self.tlc(module, cfg, workers=workers, env=env, timeout=timeout, **kw)
        m = re.findall(r'<<"ACCEPT", (\d+)>>', r.out)
        if m and r.rc == 0 and int(m[-1]) == len(events): return None
        m = re.findall(r'<<"REJECT", (\d+)>>', r.out)
        if m and int(m[-1]) < len(events) and not re.search(r"evaluat|Attempted|java\.|StackOverflow|OutOfMemory", r.out):
            return int(m[-1])
        if r.violated and "deadlock" not in r.violated:
            m = re.findall(r"/\\ l = (\d+)", r.out)
            if m: return int(m[-1]) - 2
        # an event outside the domain of the specification's operators is not a step of the specification
        if re.search(r"Attempted to|evaluating the nested|was applied to an argument", r.out) and not re.search(r"StackOverflow|OutOfMemory|Parsing or semantic", r.out):
            m = re.findall(r"/\\ l = (\d+)", r.out)
            if m: return min(int(m[-1]) - 1, len(events) - 1)
        raise ModelFailure("trace validation of %s failed to run:\n%s" % (module, r.out[-1500:]))

    # ---------------------------------------------------------------- verdict
    def evidence(self, violations):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        if self.notes: self.cov.update(self.notes)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)

    def known(self):
        """Known findings of this property: {signature: description}."""
        res = {}
        p = os.path.join(HERE, "findings", "known.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"KNOWN-FINDING: property=(\S+) \[(\S+)\] (.*)", line)
                if m and m.group(1) == self.pid: res[m.group(2)] = m.group(3)
        return res

    def main(self, body):
        """Run body(self). It may be run twice: a violation is reported only if it repeats."""
        try:
            try:
                body(self)
            except Violation as v1:
                self.log("rejected:", v1.what, "- repeating to confirm")
                self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
                self.rng = random.Random(self.seed * 1000003 + sum(map(ord, self.pid)))
                try:
                    body(self)
                except Violation as v2:
                    replay = self.path("replay.json")
                    with open(replay, "w") as f:
                        json.dump(dict(property=self.pid, what=v2.what, detail=v2.detail, seed=self.seed, tier=self.tier,
                                       command="VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s" % (self.seed, self.tier, self.pid)), f, indent=1, default=str)
                    self.evidence(1)
                    print("rejected:", v2.what)
                    print(json.dumps(v2.detail, default=str)[:3000])
                    print("VIOLATION property=%s replay=%s" % (self.pid, replay), flush=True)
                    return 1
                raise ModelFailure("a rejection did not repeat: " + v1.what)
            for s in self.known_hits: print("KNOWN-FINDING: property=%s %s" % (self.pid, s))
            self.evidence(0)
            self.log("held; coverage:", {k: v for k, v in self.cov.items() if k != "samples"})
            return 0
        except ModelFailure as e:
            print("ERROR (no verdict):", e, file=sys.stderr, flush=True)
            return 2

    # ---------------------------------------------------------------- helpers
    def sample(self, s):
        if len(self.cov["samples"]) < 5: self.cov["samples"].append(s)


def parse_events(text):
    """ndjson from driver stdout; ignores an unterminated last line."""
    evs = []
    for line in text.split("\n"):
        line = line.strip()
        if not line.startswith("{"): continue
        if len(line) > 300000:
            evs.append({"e": "garbled", "line": line[:200]}); break
        try: evs.append(json.loads(line))
        except ValueError: evs.append({"e": "garbled", "line": line[:200]})
    return evs
