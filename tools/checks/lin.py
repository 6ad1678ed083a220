"""C24 (queue) and C43 (concurrent counters and series): linearizability, and C24's sequential behaviour."""
import itertools
from vlib import *

NOTE = ("TLC checks the locked implementation design against the sequential object; the real code, compiled with a schedule perturbation "
        "before every statement (go -overlay), is used from several goroutines and TLC searches linearization points for every recorded "
        "history. A second build with the race detector runs the same scripts. Interleavings are sampled, not enumerated.")


def threads(r, fs, n, maxops, vmax=9):
    out, v = [], 0
    for _ in range(n):
        t = []
        for _ in range(r.randint(1, maxops)):
            v += 1
            t.append({"f": r.choice(fs), "v": r.randint(1, vmax) if vmax else v})
        out.append(t)
    return out


def lin_scripts(c, objs, n):
    r = c.rng
    out = []
    for i in range(n):
        obj = r.choice(objs)
        cfg = {"comp": "lin", "obj": obj, "vu": r.choice([1, 1, 2 ** 33]), "cap": 0, "win": 0, "unset": False, "tr": "code", "init": [], "named": False, "name": "", "unit": 0}
        ops = []
        base = 0
        for ph in range(r.randint(1, 3)):
            nt = r.choice([2, 2, 3, 3, 4])
            mo = {2: 5, 3: 4, 4: 3}[nt]
            if obj == "counter":
                fs = r.choice([["add"], ["add", "value"], ["add", "add", "value", "reset"]])
                final = [{"f": "value", "v": 0}]
            elif obj == "windowed":
                if ph == 0:
                    cfg["win"] = r.choice([0, 2, 5])
                fs = r.choice([["add"], ["add", "add", "value", "histi"], ["add", "value", "hist", "histi", "reset"]])
                final = [{"f": f, "v": 0} for f in ("value", "hist", "histi")]
                if ph or r.random() < .3:
                    ops.append({"op": "pass", "n": r.choice([1, 3, 6])})
            elif obj == "sampled":
                if ph == 0:
                    cfg["win"], cfg["cap"] = r.choice([0, 0, 2]), r.choice([2, 4, 40])
                fs = r.choice([["add"], ["add", "count"], ["add", "add", "count", "hist", "reset"]])
                final = [{"f": f, "v": 0} for f in ("count", "hist")]
                if ph and cfg["win"]:
                    ops.append({"op": "pass", "n": r.choice([1, 2, 3, 5])})
            else:
                if ph == 0:
                    cfg["cap"] = r.choice([0, 1, 2, 2, 3, 5, 30])
                fs = r.choice([["add", "copy"], ["add", "add", "copy"], ["add", "add", "add", "copy", "clear"]])
                final = [{"f": "copy", "v": 0}]
            ths = threads(r, fs, nt, mo)
            if obj in ("queue", "sampled"):
                for t in ths:
                    for o in t:
                        base += 1
                        o["v"] = base
            ops.append({"op": "par", "threads": ths})
            ops.append({"op": "par", "threads": [final]})
        out.append({"cfg": cfg, "ops": ops})
    return out


def heavy(c, objs, n):
    """Scripts with many additions and nothing else, whose only question is the exact sum: long, but with few orders to try."""
    out = []
    r = c.rng
    for i in range(n):
        obj = r.choice(objs)
        cfg = {"comp": "lin", "obj": obj, "cap": 500, "win": 0, "unset": False, "tr": "code", "init": [], "named": False, "name": "", "unit": 0}
        ths = [[{"f": "add", "v": 1} for _ in range(r.randint(20, 60))] for _ in range(r.randint(2, 4))]
        final = {"queue": "copy", "sampled": "count"}.get(obj, "value")
        out.append({"cfg": cfg, "ops": [{"op": "par", "threads": ths}, {"op": "par", "threads": [[{"f": final, "v": 0}]]}]})
    return out


def sequential_queue(c):
    r = c.rng
    base = {"Caps": {0, 1, 2, 3}, "Procs": "<- MCProcs", "MaxOps": 5 if THOROUGH else 4, "Gen": False, "Mistake": ""}
    c.model("MCQueue", cfgtext(consts=base, invs=["Refines", "Newest", "Bounded"], view="GenView"), workers=8)
    c.mistakes("MCQueue", lambda m: cfgtext(consts=dict(base, MaxOps=4, Mistake=m), invs=["Refines", "Newest", "Bounded"], view="GenView"), ["nolock", "one", "newest", "zero", "clear"])
    g = c.model("MCQueue", cfgtext(consts=dict(base, Gen=True, MaxOps=7, Procs="<- MCOneProc"), view="GenView", actioncon="Emit"), workers=1)
    out = []
    for s in scripts_of(g.out):
        ops = []
        for o in s["ops"]:
            ops += [o, {"op": "copy"}, {"op": "look", "i": r.randint(0, 9)}]
        out.append({"cfg": s["cfg"], "ops": ops})
    for i in range(1000 if THOROUGH else 300):
        ops = []
        for k in range(r.randint(3, 60)):
            x = r.random()
            ops.append({"op": "add", "v": k} if x < .65 else {"op": "copy"} if x < .8 else {"op": "look", "i": r.randint(0, 99)} if x < .95 else {"op": "clear"})
        out.append({"cfg": {"cap": r.choice([0, 1, 2, 3, 4, 7, 50])}, "ops": ops + [{"op": "copy"}, {"op": "look", "i": r.randint(0, 99)}]})
    for cap in (0, 64, 100, 500, 1024, 5000):
        ops = []
        for k in range(r.choice([2 * cap, 3 * cap + 5]) or 200):
            ops.append({"op": "add", "v": k})
            if r.random() < (.01 if cap < 5000 else .001):
                ops += [{"op": "copy"}, {"op": "look", "i": r.randint(0, 9)}]
            if r.random() < .2 / (cap or 100):
                ops.append({"op": "clear"})
        out.append({"cfg": {"cap": cap}, "ops": ops + [{"op": "copy"}, {"op": "look", "i": 0}]})
    for s in out:
        s["cfg"]["comp"] = "queue"
    return out


LIN = {"TInit": "<- LinInit", "TStep": "<- LinStep", "TSilent": "<- LinSilent"}


def concurrent(c, comp, objs, files, n):
    """Use by several goroutines, with perturbed schedules and with the race detector: linearizability."""
    scripts = lin_scripts(c, objs, n) + heavy(c, objs, n // 12)
    for i, s in enumerate(scripts):
        s["id"] = "l%d" % i
    again = [dict(s, id="r" + s["id"]) for s in scripts]
    a, b = parallel([lambda: run_test_driver(build_test_driver(comp, instrument(files)), scripts, procs=3),
                     lambda: run_test_driver(build_test_driver(comp, instrument(files), race=True), again, procs=3, env={"VERIF_RACE": "1", "GORACE": "halt_on_error=1"})])
    c.stuck("concurrent " + comp, c.validate("TraceLin", a + b, LIN, dfs=True), scripts + again)


def check(pid):
    c = Check(pid)
    if pid == "C24":
        comp, objs, files = "queue", ["queue"], ["pkg/monny/proc/queue.go"]
        seq = sequential_queue(c)
    else:
        comp, objs = "metric", ["counter", "windowed", "sampled"]
        files = ["pkg/metric/counter.go", "pkg/metric/sampled.go", "pkg/metric/series.go"]
        seq = []
        base = {"Procs": "<- MCProcs", "Mistake": "", "MaxCalls": 4 if THOROUGH else 3}
        c.model("MCLin", cfgtext(consts=base, invs=["Linearizable", "SumExact"], view="LView"), workers=8)
        c.mistakes("MCLin", lambda m: cfgtext(consts=dict(base, MaxCalls=3, Mistake=m), invs=["Linearizable"], view="LView"), ["unlocked", "early"])
    scripts = lin_scripts(c, objs, 3000 if THOROUGH else 500)
    scripts += heavy(c, objs, 200 if THOROUGH else 40)
    for i, s in enumerate(scripts):
        s["id"] = "l%d" % i
    for i, s in enumerate(seq):
        s["id"] = "q%d" % i

    def timed():
        drv = build_test_driver(comp, instrument(files))
        tr = run_test_driver(drv, [dict(s) for s in scripts], procs=4)
        if seq:
            tr += run_test_driver(drv, seq, procs=2)
        return tr

    def raced():
        drv = build_test_driver(comp, instrument(files), race=True)
        return run_test_driver(drv, [dict(s, id="r" + s["id"]) for s in scripts], procs=3, env={"VERIF_RACE": "1", "GORACE": "halt_on_error=1"})
    a, b = parallel([timed, raced])
    qs = [t for t in a if t["id"][0] == "q"]
    ls = [t for t in a if t["id"][0] == "l"] + b
    st = c.validate("TraceLin", ls, LIN, dfs=True)
    c.stuck("concurrent " + comp, st, scripts + [dict(s, id="r" + s["id"]) for s in scripts])
    if qs:
        st = c.validate("TraceQueue", qs, {"TInit": "<- QueueInit", "TStep": "<- QueueStep", "TSilent": "<- NoSilent"})
        c.stuck("queue", st, seq)
    return c.finish()
