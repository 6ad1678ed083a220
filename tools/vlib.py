"""Shared machinery of the checks: building drivers from /repo's working tree, running TLC,
validating recorded traces against a specification, evidence and verdicts."""
import concurrent.futures as cf
import atexit, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GO = "/opt/veriftools/go1.27.3/bin/go"
CORES = 8


class Broken(Exception):
    """The machinery could not give an answer (exit code 2, never a violation)."""


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             PATH="/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin"))
    e.setdefault("HOME", "/root")
    e.pop("VERIF_IN", None)
    return e


# ------------------------------------------------------------------ scratch
os.makedirs(os.path.join(ROOT, "work"), exist_ok=True)
WORK = tempfile.mkdtemp(prefix="run.", dir=os.path.join(ROOT, "work"))
KEEP = os.environ.get("VERIF_KEEP")


def _cleanup():
    if KEEP:
        print("kept", WORK, file=sys.stderr)
        return
    shutil.rmtree(WORK, ignore_errors=True)


atexit.register(_cleanup)

_n = 0
_nlock = threading.Lock()


def scratch(name):
    global _n
    with _nlock:
        _n += 1
        d = os.path.join(WORK, "%03d.%s" % (_n, name))
    os.makedirs(d)
    return d


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


# ------------------------------------------------------------------ TLC
class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.violated = re.findall(r"(?:Invariant|property|Property|Action property|Temporal properties?) (\S+)? ?(?:is|was|were) violated", out)
        self.ok = rc == 0


def tlc(module, cfg, env=None, workers=1, timeout=600, simulate=None, depth=None, heap="2g", extra=(), dfs=False):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    d = scratch("tlc." + module)
    cfgf = os.path.join(d, module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=1" if THOROUGH is False and workers == 1 and timeout < 60 else "-XX:+TieredCompilation"]
    if dfs:
        cmd += ["-Dtlc2.tool.queue.IStateQueue=StateDeque"]
    cmd += ["-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-config", cfgf, "-metadir", os.path.join(d, "meta"),
            "-noGenerateSpecTE", "-deadlock"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-seed", str(SEED)]
        if depth:
            cmd += ["-depth", str(depth)]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    outf = os.path.join(d, "out.txt")
    with open(outf, "w") as f:
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise Broken("TLC timed out after %ss on %s" % (timeout, module))
    with open(outf, errors="replace") as f:
        out = f.read()
    if not KEEP:
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return TLCResult(rc, out, time.time() - t)


def parallel(fns, n=CORES):
    with cf.ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(g) for g in fns]]


# ------------------------------------------------------------------ model checking
def tlaval(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("<-") else '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tlaval(x) for x in v)) + "}"
    raise ValueError(v)


def cfgtext(spec="Spec", consts=None, invs=(), props=(), view=None, constraint=None, actioncon=None, init=None, next_=None, post=None):
    s = []
    if init:
        s += ["INIT " + init, "NEXT " + next_]
    else:
        s += ["SPECIFICATION " + spec]
    for k, v in (consts or {}).items():
        if isinstance(v, str) and v.startswith("<-"):
            s.append("CONSTANT %s %s" % (k, v))
        else:
            s.append("CONSTANT %s = %s" % (k, tlaval(v)))
    for i in invs:
        s.append("INVARIANT " + i)
    for p in props:
        s.append("PROPERTY " + p)
    if view:
        s.append("VIEW " + view)
    if constraint:
        s.append("CONSTRAINT " + constraint)
    if actioncon:
        s.append("ACTION_CONSTRAINT " + actioncon)
    if post:
        s.append("POSTCONDITION " + post)
    return "\n".join(s) + "\n"


def scripts_of(out):
    """The maximal scripts printed by a generating TLC run."""
    seen = {}
    for m in re.finditer(r'^"?SCRIPT (.*?)"?$', out, re.M):
        raw = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
        o = json.loads(raw)
        key = json.dumps(o["cfg"], sort_keys=True)
        seen.setdefault(key, {})[json.dumps(o["ops"], sort_keys=True)] = o
    res = []
    for key in seen:
        ops = seen[key]
        prefixes = set()
        for o in ops.values():
            for i in range(len(o["ops"])):
                prefixes.add(json.dumps(o["ops"][:i], sort_keys=True))
        res += [o for k, o in ops.items() if k not in prefixes]
    return res


# ------------------------------------------------------------------ the check
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.states = self.transitions = self.traces = self.events = 0
        self.violations, self.known = [], []
        self.samples, self.notes = [], {}
        self.actions = {}
        self.rng = random.Random("%s/%d" % (pid, SEED))
        self.findings = load_findings(pid)
        self.lock = threading.Lock()

    # -- design
    def model(self, module, cfg, expect=True, **kw):
        kw.setdefault("workers", 4)
        r = tlc(module, cfg, **kw)
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
        if not r.ok:
            raise Broken("the specification %s does not satisfy its own properties (rc %d):\n%s" % (module, r.rc, r.out[-3000:]))
        log("model", module, "%d states %d transitions %.1fs" % (r.distinct, r.generated, r.wall))
        return r

    def mistakes(self, module, make, names, workers=2, timeout=600):
        """The model with each of these design mistakes has to violate its properties; make(name) is the configuration."""
        def one(m):
            if tlc(module, make(m), workers=workers, timeout=timeout).rc not in (12, 13):
                raise Broken("the specification %s does not notice the design mistake '%s'" % (module, m))
        parallel([lambda m=m: one(m) for m in names], 4)
        self.notes.setdefault("design_mistakes_noticed", []).extend("%s: %s" % (module, m) for m in names)
        log("mistakes", module, " ".join(names))

    # -- conformance
    def validate(self, module, traces, consts, chunk=None, timeout=600, describe=None, dfs=False, heap="2g"):
        """Check recorded traces against spec/<module>.tla; returns the list of (trace, events explained)."""
        if not traces:
            return []
        n = max(1, min(CORES, len(traces) // 20 + 1)) if chunk is None else max(1, min(64, -(-len(traces) // chunk)))
        parts = [traces[i::n] for i in range(n)]

        def run(part):
            d = scratch("traces")
            f = os.path.join(d, "traces.json")
            with open(f, "w") as fh:
                json.dump([{"cfg": t["cfg"], "ev": t["ev"]} for t in part], fh)
            cfg = cfgtext("TraceSpec", consts, constraint="TraceConstraint", post="TraceReport")
            r = tlc(module, cfg, env={"TRACES": f}, workers=1, timeout=timeout, dfs=dfs, heap=heap)
            if r.rc != 0:
                raise Broken("trace validation failed to run (%s, rc %d):\n%s" % (module, r.rc, r.out[-3000:]))
            stuck = []
            for m in re.finditer(r'STUCK (\d+) (\d+)', r.out):
                t = part[int(m.group(1)) - 1]
                t["how"] = {"module": module, "consts": consts}
                stuck.append((t, int(m.group(2))))
            with self.lock:
                self.states += r.distinct
                self.transitions += r.generated
                self.traces += len(part)
                self.events += sum(len(t["ev"]) for t in part)
            return stuck
        out = []
        for s in parallel([lambda p=p: run(p) for p in parts]):
            out += s
        for t in traces:
            for e in t["ev"]:
                k = e.get("op", e.get("e", "?"))
                self.actions[k] = self.actions.get(k, 0) + 1
        for t in traces:
            if len(self.samples) < 3 and t["ev"]:
                self.samples.append(clip(t))
        return out

    def violation(self, what, replay, signature=None):
        """Record a violation; replay is a JSON-serialisable object."""
        sig = signature or what
        for f in self.findings:
            if f["match"] and re.search(f["match"], sig):
                self.known.append((f, what))
                return
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        replay = dict(replay, property=self.pid, what=what, seed=SEED)
        blob = json.dumps(replay, indent=1, sort_keys=True, default=str)
        path = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha1(blob.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(blob)
        self.violations.append((what, path))

    def stuck(self, comp, stuck, scripts=None, why=None):
        """Turn rejected traces into violations."""
        byid = {s["id"]: s for s in scripts or []}
        for t, n in stuck:
            ev = t["ev"][n] if n < len(t["ev"]) else None
            what = "%s: event %d %s is not explained by the specification" % (comp, n + 1, json.dumps(ev, sort_keys=True)[:300])
            if why:
                what += " (" + why(t, n) + ")"
            self.violation(what, {"component": comp, "script": byid.get(t["id"]), "explained_events": n,
                                  "rejected_event": ev, "trace": t},
                           signature="%s %s" % (comp, json.dumps(ev, sort_keys=True)))

    def finish(self, extra=None, exhaustive=None):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "events_by_kind": self.actions, "samples": self.samples}
        cov.update(self.notes)
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for f, what in self.known[:10]:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        seen = set()
        for what, path in self.violations[:10]:
            print("  " + what[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if self.traces == 0:
            raise Broken("nothing was validated")
        log("done: %d states, %d traces, %d events, %d violations" % (self.states, self.traces, self.events, len(self.violations)))
        return 1 if self.violations else 0


def clip(t, n=12):
    t = {"id": t.get("id"), "cfg": t["cfg"], "ev": t["ev"][:n] + ([{"...": len(t["ev"]) - n}] if len(t["ev"]) > n else [])}
    s = json.dumps(t, default=str)
    return t if len(s) < 6000 else s[:6000]


def load_findings(pid):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out


# ------------------------------------------------------------------ building and running drivers
def overlay(replace, d):
    f = os.path.join(d, "overlay.json")
    with open(f, "w") as fh:
        json.dump({"Replace": replace}, fh)
    return f


def gobuild(args, d):
    r = subprocess.run([GO] + args, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    return r.returncode, r.stdout


_instr = None


def instrument(files, skip=()):
    """Overlay entries that insert schedule perturbation into source files of /repo; {} if they can not be instrumented."""
    global _instr
    if _instr is None:
        d = scratch("instr")
        b = os.path.join(d, "instr")
        e = goenv()
        e.update(GOFLAGS="", GO111MODULE="auto")
        r = subprocess.run([GO, "build", "-o", b, "main.go"], cwd=os.path.join(ROOT, "tools", "instr"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Broken("instrumenter does not build: " + r.stdout)
        _instr = b
    d = scratch("instrumented")
    rep = {}
    for f in files:
        out = os.path.join(d, f.replace("/", "__"))
        src = os.path.join(REPO, f)
        if not os.path.exists(src):
            continue
        r = subprocess.run([_instr, src, out] + list(skip), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log("can not instrument", f, r.stdout)
            continue
        rep[src] = out
        m = re.search(r"^package (\w+)", open(out).read(), re.M)
        y = os.path.join(d, os.path.dirname(f).replace("/", "__") + "__y.go")
        with open(y, "w") as fh:
            fh.write(open(os.path.join(HARNESS, "instr", "y.go")).read().replace("PKG", m.group(1), 1))
        rep[os.path.join(REPO, os.path.dirname(f), "verif_y.go")] = y
    return rep


def fasttime():
    """Overlay entries for package time: clock and timers run VERIF_SPEED times as fast."""
    d = scratch("fasttime")
    root = subprocess.run([GO, "env", "GOROOT"], cwd=REPO, env=goenv(), stdout=subprocess.PIPE, text=True).stdout.strip()
    rep = {}
    for f, edits in (("time.go", (("runtimeNano()-startNano", "(runtimeNano()-startNano)*verifSpeed"),
                                  ("\tmono -= startNano\n", "\tmono -= startNano\n\tif verifSpeed > 1 {\n\t\tx := mono * (verifSpeed - 1)\n\t\tmono += x\n\t\tx += int64(nsec)\n"
                                   "\t\tsec += x / 1e9\n\t\tnsec = int32(x % 1e9)\n\t}\n"),
                                  ("import (", 'import (\n\t"syscall"'))),
                     ("sleep.go", (("t := runtimeNano() + int64(d)", "t := runtimeNano() + int64(d)/verifSpeed"),)),
                     ("tick.go", (("int64(d)", "int64(d)/verifSpeed"),))):
        src = os.path.join(root, "src", "time", f)
        text = open(src).read()
        for old, new in edits:
            if old not in text:
                raise Broken("package time has no '%s'" % old)
            text = text.replace(old, new)
        if f == "time.go":
            text += """
var verifSpeed = func() int64 {
	s, _ := syscall.Getenv("VERIF_SPEED")
	n := int64(0)
	for i := 0; i < len(s); i++ {
		n = n*10 + int64(s[i]-'0')
	}
	if n < 1 {
		n = 1
	}
	return n
}()
"""
        rep[src] = os.path.join(d, f)
        open(rep[src], "w").write(text)
    return rep


def build_test_driver(comp, instrumented=None, race=False, extra_files=None, inpkg=True):
    """Compile harness/common + harness/<comp> as the tests of a package that exists only in the overlay."""
    d = scratch("build." + comp)
    rep = {}
    pkg = "pkg/verifdrv_" + comp
    for sub in ("common", comp):
        for f in sorted(os.listdir(os.path.join(HARNESS, sub))):
            if f.endswith(".go"):
                rep[os.path.join(REPO, pkg, "%s_%s_test.go" % (sub, f[:-3]))] = os.path.join(HARNESS, sub, f)
    # files added to packages of the repository, named <package dir with __>--<name>.go
    xd = os.path.join(HARNESS, comp, "inpkg")
    inpkg = inpkg and os.path.isdir(xd)
    if inpkg:
        for f in sorted(os.listdir(xd)):
            where, name = f.split("--")
            rep[os.path.join(REPO, where.replace("__", "/"), name)] = os.path.join(xd, f)
    rep.update(extra_files or {})
    if instrumented:
        rep.update(instrumented)
    out = os.path.join(d, "drv.test")
    rc, o = gobuild(["test", "-c", "-vet=off"] + (["-race"] if race else []) + ["-overlay", overlay(rep, d), "-o", out, "./" + pkg], d)
    if rc != 0:
        if instrumented:
            log("instrumented build failed, building as is:", o[-500:])
            return build_test_driver(comp, None, race, extra_files)
        if inpkg:
            log("build with access to the package failed, going without:", o[-500:])
            return build_test_driver(comp, None, race, extra_files, False)
        raise Broken("driver %s does not build:\n%s" % (comp, o[-3000:]))
    log("built", comp)
    return out


def run_test_driver(binary, scripts, par=1, timeout=120, env=None, procs=1, run="TestDrive"):
    """Run scripts through a driver; returns traces.  A process that dies or hangs is charged to the scripts that were running."""
    for i, s in enumerate(scripts):
        s.setdefault("id", "s%d" % i)

    def one(part, k):
        pending = list(part)
        traces = []
        rounds = 0
        while pending:
            rounds += 1
            d = scratch("drive")
            fin, fout = os.path.join(d, "in.json"), os.path.join(d, "out.json")
            with open(fin, "w") as f:
                for s in pending:
                    f.write(json.dumps(s) + "\n")
            e = goenv()
            e.update(VERIF_IN=fin, VERIF_OUT=fout, VERIF_PAR=str(par), SHELL="/bin/sh", GOTRACEBACK="all")
            e.update(env or {})
            with open(os.path.join(d, "log"), "w") as lf:
                p = subprocess.Popen([binary, "-test.run", "^%s$" % run, "-test.timeout", "0", "-test.count", "1"], cwd=d, env=e,
                                     stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
                hung = False
                try:
                    p.wait(timeout=timeout)
                except subprocess.TimeoutExpired:
                    hung = True
                    try:
                        os.kill(p.pid, signal.SIGQUIT)
                        p.wait(timeout=5)
                    except subprocess.TimeoutExpired:
                        pass
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            done, begun, ended = {}, [], False
            if os.path.exists(fout):
                for line in open(fout):
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue
                    if "begin" in o:
                        begun.append(o["begin"])
                    elif "end" in o:
                        ended = True
                    else:
                        done[o["id"]] = o
            traces += list(done.values())
            if ended and not hung and p.returncode == 0:
                break
            text = open(os.path.join(d, "log"), errors="replace").read()
            if not hung and p.returncode == 7:  # the watchdog has recorded the script that hung
                pending = [s for s in pending if s["id"] not in done]
                if rounds > 4:
                    break
                continue
            running = [b for b in begun if b not in done]
            if ended and not running:
                # the scripts were all run, but the process failed afterwards (e.g. a leaked goroutine panicked)
                if hung or "panic:" in text or "fatal error:" in text or "DATA RACE" in text:
                    last = part[-1]
                    traces = [t for t in traces if t["id"] != last["id"]]
                    old = done.get(last["id"], {"ev": []})
                    traces.append({"id": last["id"], "cfg": last["cfg"], "ev": old["ev"] + [{"op": "crash", "res": crash_of(text)}], "note": text[:20000]})
                    break
                raise Broken("driver failed: " + text[-2000:])
            if not running:
                raise Broken("driver died before it ran anything: rc=%s\n%s" % (p.returncode, text[-3000:]))
            what = {"op": "hang", "res": "no progress within %ss" % timeout} if hung else {"op": "crash", "res": crash_of(text)}
            if not hung and not is_product_crash(text):
                raise Broken("driver crashed outside the code under test: " + text[-3000:])
            for b in running:
                s = next(x for x in pending if x["id"] == b)
                traces.append({"id": b, "cfg": s["cfg"], "ev": [what], "note": text[:20000]})
            pending = [s for s in pending if s["id"] not in done and s["id"] not in running]
            if rounds > 4:
                break
        return traces

    parts = [scripts[i::procs] for i in range(procs)]
    out = []
    for r in parallel([lambda p=p, k=k: one(p, k) for k, p in enumerate(parts) if p], n=procs):
        out += r
    return out


def crash_of(text):
    if "WARNING: DATA RACE" in text:
        i = text.index("WARNING: DATA RACE")
        return "data race: " + " / ".join(x.strip() for x in text[i:].split("\n")[1:8])[:400]
    m = re.search(r"^(panic: .*|fatal error: .*|unexpected fault address.*|SIGSEGV.*)$", text, re.M)
    return m.group(1)[:300] if m else "process ended unexpectedly: " + text[-200:]


def is_product_crash(text):
    """A crash of the process counts against the code under test only if its frames are in the trace."""
    return ("panic:" in text or "fatal error:" in text or "DATA RACE" in text) and re.search(r"github\.com/BTBurke/monny/pkg/(?!verifdrv)", text) is not None


def main(fn, pid):
    try:
        rc = fn()
    except Broken as e:
        print("BROKEN: %s" % e, file=sys.stderr)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("BROKEN: %s" % e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
