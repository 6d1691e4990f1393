"""Runner support: builds drivers against /repo's working tree, runs them, runs TLC on
what they logged, and turns the outcome into exit codes, VIOLATION lines and evidence.
All judgements about the code are made by TLC on the specification (spec/*.tla)."""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")

class Violation(Exception):
    def __init__(self, what, replay): super().__init__(what); self.what = what; self.replay = replay
class Broken(Exception): pass

def tail(s, n=4000): return s if len(s) <= n else "...\n" + s[-n:]

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(seed * 1000003 + int(prop[1:]))
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.notes = [], [], []
        self.known = {}
        self.work = None
        self.once = False       # set where a second run might be luckier: a violation stands
        self.extra = {}

    # -- scratch --------------------------------------------------------------
    def path(self, *p):
        f = os.path.join(self.work, *p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        return f
    def dir(self, *p):
        d = os.path.join(self.work, *p); os.makedirs(d, exist_ok=True); return d
    def write(self, name, obj):
        f = self.path(name)
        with open(f, "w") as h:
            h.write(obj) if isinstance(obj, str) else json.dump(obj, h)
        return f
    def load(self, f):
        with open(f) as h: return json.load(h)

    # -- building -------------------------------------------------------------
    def cxx(self, name, defs=(), opt="-O1", san=False, extra=(), objs=(), srcs=None, out=None, checks=True):
        """Compile drivers/<name>.cpp against the current tree.  The public headers
        not compiling with the driver's use of the public API is a violation of the
        property the driver observes; a compiler that cannot even build an empty
        program is a broken environment."""
        exe = self.path("bin", out or name)
        cmd = ["g++", "-std=c++17", opt, "-w", "-I" + DRV, "-I" + REPO + "/include", "-pthread"]
        if checks: cmd += ["-D_GLIBCXX_ASSERTIONS"]
        if san: cmd += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g1"]
        cmd += ["-D" + d for d in defs] + list(extra) + os.environ.get("VF_CXXFLAGS", "").split()
        cmd += srcs if srcs is not None else [os.path.join(DRV, name + ".cpp")]
        cmd += list(objs) + ["-o", exe]
        t0 = time.time()
        for attempt in (1, 2):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode == 0:
                if os.environ.get("VF_TIMES"): print("g++ %s %.1fs" % (exe, time.time() - t0))
                return exe
        probe = self.write("probe.cpp", "int main(){return 0;}\n")
        p = subprocess.run(["g++", probe, "-o", self.path("bin", "probe")], capture_output=True)
        if p.returncode != 0 or "Killed" in r.stderr or "cc1plus: out of memory" in r.stderr:
            raise Broken("compiler not usable: " + tail(r.stderr))
        raise Violation("the driver no longer compiles against the public headers: " +
                        first_error(r.stderr), " ".join(cmd) + "\n" + tail(r.stderr, 20000))

    def run(self, exe, *args, timeout=600, okcodes=(0,), env=None, mem=None, pre_cmd=(), attempts=2):
        pre = (lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))) if mem else None
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", **(env or {}))
        t0 = time.time()
        for attempt in range(attempts):
            try:
                r = subprocess.run([*pre_cmd, exe, *map(str, args)], capture_output=True, text=True, timeout=timeout, env=e, errors="replace", preexec_fn=pre)
                rc, out = r.returncode, r.stdout + r.stderr
            except subprocess.TimeoutExpired as x:
                rc, out = "timeout after %ds" % timeout, str((x.stdout or b"")[-2000:]) + str((x.stderr or b"")[-2000:])
            if rc in okcodes:
                if os.environ.get("VF_TIMES"): print("run %s %.1fs" % (exe, time.time() - t0))
                return out
        if rc == 3: raise Broken("driver usage: " + tail(out))
        raise Violation("driver %s %s ended with %s: %s" % (os.path.basename(exe), " ".join(map(str, args[:1])), rc, first_error(out)),
                        " ".join([exe, *map(str, args)]) + "\n" + tail(out, 20000))

    def lanes(self, exe, mode, lines, log, n=6, **kw):
        """Run a driver over interleaved shares of `lines` at the same time; one log."""
        import concurrent.futures as cf
        n = max(1, min(n, len(lines)))
        def one(i):
            f = "%s.%d" % (log, i)
            self.run(exe, mode, self.write(os.path.basename(log) + ".%d.txt" % i, "\n".join(lines[i::n]) + "\n"), f, **kw)
            with open(f) as h: t = h.read().strip()
            os.remove(f); return t[1:-1].strip()
        with cf.ThreadPoolExecutor(n) as ex: parts = list(ex.map(one, range(n)))
        with open(log, "w") as h: h.write("[" + ",\n".join(p for p in parts if p) + "]")

    # -- TLC ------------------------------------------------------------------
    def classes(self):
        d = self.dir("classes")
        if not os.path.exists(os.path.join(d, "Dyadic.class")):
            r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", d] +
                               [os.path.join(VERIF, "java", f) for f in os.listdir(os.path.join(VERIF, "java"))],
                               capture_output=True, text=True)
            if r.returncode: raise Broken("javac: " + r.stderr)
        return d

    def tlc(self, module, env=None, cfg=None, workers=8, timeout=840, xmx="6g", args=(), what=None, count=True, expect=None):
        cfg = cfg or module
        md = tempfile.mkdtemp(dir=self.work, prefix="tlc")
        cmd = ["java", "-Xmx" + xmx, "-Xss64m", "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC,
               "-cp", self.classes() + ":" + TLA, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md,
               "-config", os.path.join(SPEC, cfg + ".cfg"), *args, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ); e.update({k: str(v) for k, v in (env or {}).items()})
        t0 = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=self.work)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on " + module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = r.stdout + r.stderr
        out = "\n".join(l for l in out.splitlines() if "operator override" not in l)
        m = re.findall(r"([\d,]+) states generated,? ?(?:\(.*?\) )?,? ?([\d,]+) distinct states found", out)
        res = dict(rc=r.returncode, out=out, wall=time.time() - t0, gen=0, distinct=0)
        g = re.findall(r"The number of states generated: ([\d,]+)", out)
        if g: res["gen"] = int(g[-1].replace(",", ""))
        if m: res["gen"], res["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        for k in re.findall(r'<<"KNOWN", "([^"]*)">>', out): self.known[k] = self.known.get(k, 0) + 1
        for k in re.findall(r'<<"COUNT", "([^"]*)", (-?\d+)>>', out): self.extra[k[0]] = int(k[1])
        if os.environ.get("VF_TIMES"): print("tlc %s %.1fs %d states" % (cfg, res["wall"], res["distinct"]))
        if count:
            self.states += res["distinct"]; self.transitions += res["gen"]
        if r.returncode == 0: return res
        if r.returncode in (10, 11, 12, 13, 14, 75, 76, 77):
            raise Violation("%s: %s" % (module, explain(out)), "TLC " + " ".join(cmd) + "\nenv " + json.dumps(env or {}) + "\n" + trim(out))
        raise Broken("TLC %s exit %d\n%s" % (module, r.returncode, tail(out, 6000)))

def first_error(s):
    for l in s.splitlines():
        if "error:" in l or "SUMMARY: ThreadSanitizer" in l or "ERROR:" in l or "Assertion" in l or "runtime error" in l or "what():" in l: return l.strip()[:300]
    l = [x for x in s.splitlines() if x.strip()]
    return l[-1][:300] if l else ""

def explain(out):
    lines = out.splitlines()
    msg = [l for l in lines if l.startswith("Error:")]
    alias = []
    # last state of the trace, short fields only
    last = max([i for i, l in enumerate(lines) if l.startswith("State ")] or [-1])
    if last >= 0:
        for l in lines[last + 1:last + 40]:
            if not l.strip(): break
            alias.append(l.strip()[:160])
    bad = [l for l in lines if l.startswith('<<"BAD"')]
    return (" ".join(msg[:1]) + " " + " ".join(bad[:3]) + " " + " ".join(alias))[:900]

def trim(out, n=200000):
    return out if len(out) < n else out[:n // 2] + "\n...\n" + out[-n // 2:]

# -- findings ------------------------------------------------------------------
def findings():
    """KNOWN_FINDINGS: lines 'finding: property=<id> key=<key> <what>' and
    'fixed: property=<id> <commit> <what>'."""
    f = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS")) as h:
        for l in h:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m: f[(m.group(1), m.group(2))] = m.group(3).strip()
    return f

def main(checks, argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop not in checks: print("unknown property", prop); return 2
    fn, level = checks[prop]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    viol = None; broken = None
    for attempt in (1, 2):
        c = Ctx(prop, tier, seed)
        c.work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, "build"))
        viol = broken = None
        try: fn(c)
        except Violation as v: viol = v
        except Broken as b: broken = b
        finally:
            if os.environ.get("VF_KEEP") != "1": shutil.rmtree(c.work, ignore_errors=True)
            else: print("kept", c.work)
        if viol is None and broken is None or viol and c.once: break
        if time.time() - t0 > 400: break          # no time left for a second run
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2),
              violations=1 if viol else 0, assumptions=c.assumptions,
              coverage=dict(states=c.states, transitions=c.transitions, traces_validated_against_impl=c.traces,
                            samples=c.samples[:12], **c.extra))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as h: json.dump(ev, h, indent=1)
    fs = findings()
    for k in sorted(c.known):
        if (prop, k) in fs: print("KNOWN-FINDING: property=%s %s" % (prop, fs[(prop, k)]))
    if broken:
        print("ERROR: " + str(broken)); return 2
    if viol:
        rp = os.path.join(VERIF, "evidence", prop + ".replay.txt")
        with open(rp, "w") as h: h.write(viol.what + "\n\n" + viol.replay + "\n")
        print(viol.what[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s %s held: %d states, %d transitions, %d recorded histories (%.1fs)" %
          (prop, tier, c.states, c.transitions, c.traces, time.time() - t0))
    return 0
