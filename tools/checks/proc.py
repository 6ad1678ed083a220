"""C25, C27 (log processor) and C26 (ticker)."""
import itertools
from vlib import *

NOTE = ("C27: the same for sinks that fail, with the events on the error topic. C25: TLC checks the emitter/Wait design for every subset and order of options; scripts over all option subsets, both modes, line "
        "shapes, chunkings and cancellation points run the real log processor on a real child process (or stdin), and TLC validates what "
        "the sinks and the bus received. C26: TLC checks the ticker goroutine with a lossy clock channel and shutdown liveness; the real "
        "ticker runs under a fake clock and TLC validates every tick. Goroutine schedules of the real code are sampled (perturbed, and "
        "with the race detector).")

OPTS = ["noStdoutOut", "noStderrOut", "noOutput", "noStdoutIn", "noStderrIn"]
KINDS = ["text"] * 6 + ["spaces", "binary", "edge", "long", "same", "same", "empty"]


def log_script(r, piped, opts, cancel=False):
    streams = ["i"] if piped else ["o", "e"]
    off = {x for o, x in (("noStdoutIn", "o"), ("noStderrIn", "e")) if o in opts}
    ops = []
    waitat = r.choice(["end", "start", "mid"])
    if waitat == "start":
        ops.append({"op": "wait"})
    n = r.randint(0, 5)
    for k in range(n):
        s = r.choice(streams)
        # nobody reads a stream that is switched off: keep it within what a pipe holds
        kinds = [r.choice(KINDS if s not in off else ["text", "binary"]) for _ in range(r.choice([1, 1, 2, 5, 12]))]
        if s in off:
            kinds = kinds[:5]
        ops.append({"op": "lines", "s": s, "kinds": kinds, "cut": r.choice([0, 0, 3, 100, 5000]) if "long" not in kinds else r.choice([0, 5000]), "last": False})
        if waitat == "mid" and k == n // 2:
            ops.append({"op": "wait"})
        if r.random() < .2:
            ops.append({"op": "pause", "n": r.choice([1, 3])})
    if cancel:
        if waitat == "end":
            ops.append({"op": "wait"})
        ops += [{"op": "pause", "n": r.choice([0, 2])}, {"op": "cancel"}]
        if r.random() < .5:
            ops.append({"op": "eof", "s": r.choice(streams)})
    else:
        order = list(streams)
        r.shuffle(order)
        for s in order:
            if r.random() < .4:
                ops.append({"op": "lines", "s": s, "kinds": ["text"] * r.randint(1, 2), "cut": 0, "last": True})
            ops.append({"op": "eof", "s": s})
            if r.random() < .3:
                ops.append({"op": "pause", "n": 2})
    opts = list(opts)
    r.shuffle(opts)
    cfg = {"comp": "logs", "piped": piped, "opts": opts, "hist": r.choice([-1, 0, 1, 5]), "at": r.randint(0, 6), "histAt": r.randint(0, 6),
           "bare": r.random() < .5, "broken": [], "how": "", "errs": False}
    return {"cfg": cfg, "ops": ops}


def logs(c):
    r = c.rng
    c.model("MCLogs", cfgtext("Spec", {"MaxLines": 2, "MaxOpts": 2 if not THOROUGH else 3, "Faults": False, "Mistake": ""}, invs=["Allowed", "OptionOrder"]), workers=8)
    c.model("MCLogs", cfgtext("Spec", {"MaxLines": 1, "MaxOpts": 1, "Faults": False, "Mistake": ""}, invs=["Allowed"], props=["WaitEnds"]), workers=4)
    c.mistakes("MCLogs", lambda m: cfgtext("Spec", {"MaxLines": 2, "MaxOpts": 0, "Faults": False, "Mistake": m}, invs=["Allowed"]), ["stamp"])
    out = []
    subsets = [s for k in range(len(OPTS) + 1) for s in itertools.combinations(OPTS, k)]
    for piped in (False, True):
        for s in subsets:
            for _ in range(10 if THOROUGH else 3 if not piped else 2):
                out.append(log_script(r, piped, s))
    for _ in range(300 if THOROUGH else 60):
        out.append(log_script(r, r.random() < .3, r.choice(subsets[:8]), cancel=True))
    for piped in (False, True):
        for s in ("i",) if piped else ("o", "e"):
            e = [{"op": "eof", "s": x} for x in (("i",) if piped else ("o", "e"))]
            cfg = {"comp": "logs", "piped": piped, "opts": [], "hist": -1, "at": 0, "histAt": 0, "bare": False, "broken": [], "how": "", "errs": False}
            out.append({"cfg": cfg, "ops": [{"op": "lines", "s": s, "kinds": ["huge", "text", "long", "huge", "text"], "cut": 5000, "last": False}] + e})
            out.append({"cfg": cfg, "ops": [{"op": "lines", "s": s, "kinds": ["text"] * 400, "cut": 0, "last": True}] + e})
            out.append({"cfg": cfg, "ops": [{"op": "lines", "s": s, "kinds": ["edge"] * 60, "cut": 4096, "last": False}] + e})
            out.append({"cfg": cfg, "ops": [{"op": "lines", "s": s, "kinds": ["text", "giant", "text", "atlas", "giant", "text"], "cut": 300000, "last": s == "e"}] + e})
            out.append({"cfg": cfg, "ops": [{"op": "lines", "s": s, "kinds": ["same"] * 40 + ["text"] + ["empty"] * 40 + ["same"], "cut": 0, "last": False}] + e})
            # the time of a line is that of the line
            gap = [{"op": "pause", "n": k} for k in (30, 700, 5, 90, 400)]
            out.append({"cfg": cfg, "ops": sum([[{"op": "lines", "s": s, "kinds": ["text", "same", "empty"][:1 + j % 3], "cut": 0, "last": False}, g] for j, g in enumerate(gap)], []) + e})
            out.append({"cfg": dict(cfg, opts=["noOutput"]), "ops": [gap[0]] + sum([[{"op": "lines", "s": s, "kinds": ["text"], "cut": 3, "last": False}, g] for g in gap[2:]], []) + e})
            out.append({"cfg": dict(cfg, hist=100), "ops": [{"op": "lines", "s": s, "kinds": ["text"] * 2500, "cut": 0, "last": False}] + e})
    return out


def faults(c):
    """sinks that nothing can be written to"""
    r = c.rng
    c.model("MCLogs", cfgtext("Spec", {"MaxLines": 2, "MaxOpts": 1 if not THOROUGH else 2, "Faults": True, "Mistake": ""}, invs=["Allowed"], props=["WaitEnds"]), workers=8)
    for m in ("stop", "silent"):
        if tlc("MCLogs", cfgtext("Spec", {"MaxLines": 1, "MaxOpts": 1, "Faults": True, "Mistake": m}, invs=["Allowed"]), workers=4, timeout=600).rc != 12:
            raise Broken("the specification does not notice the mistake '%s'" % m)
    def first(x):
        """a sink that takes a part of the first line: one that is longer than a pipe holds"""
        if x["cfg"]["how"] == "short":
            for b in x["cfg"]["broken"]:
                s = "i" if x["cfg"]["piped"] else {"stdout": "o", "stderr": "e"}[b]
                if not (s == "o" and "noStdoutIn" in x["cfg"]["opts"] or s == "e" and "noStderrIn" in x["cfg"]["opts"]):
                    x["ops"].insert(0, {"op": "lines", "s": s, "kinds": ["long"], "cut": 0, "last": False})
    out = []
    subsets = [s for k in range(3) for s in itertools.combinations(OPTS, k)]
    for piped in (False, True):
        for broken in ([], ["stdout"], ["stderr"], ["stdout", "stderr"]):
            if piped and "stderr" in broken:
                continue
            for how in ("full", "closed", "pipe", "readonly", "short"):
                for s in [()] * 3 + r.sample(subsets, 14 if THOROUGH else 4):
                    x = log_script(r, piped, s, cancel=r.random() < .1)
                    x["cfg"].update(broken=broken, how=how, errs=True)
                    first(x)
                    out.append(x)
                # hundreds of failing lines
                x = log_script(r, piped, ())
                x["cfg"].update(broken=broken, how=how, errs=True)
                x["ops"].insert(0, {"op": "lines", "s": "i" if piped else r.choice("oe"), "kinds": ["text"] * 300, "cut": 0, "last": False})
                first(x)
                out.append(x)
    return out


def tickers(c):
    r = c.rng
    for d in (0, 1, 2, 3):
        c.model("MCTicker", cfgtext("Spec", {"D": d, "MaxNow": 7, "Prompt": True, "Mistake": ""}, invs=["Allowed", "OncePerPeriod"], props=["ShutdownSucceeds"]), workers=2)
    c.mistakes("MCTicker", lambda m: cfgtext("Spec", {"D": 0 if m == "zero" else 2, "MaxNow": 5, "Prompt": m != "late", "Mistake": m}, invs=["Allowed", "OncePerPeriod"], props=["ShutdownSucceeds"]),
               ["double", "zero", "miss", "silent", "late"])
    out = []
    for d in range(0, 8):
        out.append({"cfg": {"d": [d]}, "ops": [{"op": "adv", "n": 25, "look": True}, {"op": "shut"}, {"op": "adv", "n": 9, "look": False}]})
    for ds in ([1], [2, 1, 7], [1000]):
        out.append({"cfg": {"d": ds}, "ops": [{"op": "adv", "n": 3000, "look": False}, {"op": "shut"}, {"op": "adv", "n": 30, "look": False}]})
    for _ in range(2000 if THOROUGH else 250):
        ops = []
        for _ in range(r.randint(1, 8)):
            x = r.random()
            if x < .7:
                ops.append({"op": "adv", "n": r.choice([1, 2, 3, 7, 20]), "look": r.random() < .5})
            else:
                ops.append({"op": "other", "n": r.choice([1, 3, 20])})
        if r.random() < .4:
            ops.append({"op": "tight"})
            if r.random() < .4:
                ops.append({"op": "other", "n": r.choice([1, 2, 5])})
        ops.append({"op": "shut"})
        if r.random() < .6:
            ops.append({"op": "adv", "n": r.choice([1, 5, 30]), "look": False})
        out.append({"cfg": {"d": [r.choice([0, 1, 1, 2, 3, 5, 10, 13]) for _ in range(r.choice([1, 1, 1, 2, 3]))]}, "ops": ops})
    for s in out:
        s["cfg"]["comp"] = "ticker"
        s["cfg"]["unit"] = r.choice([10 ** 9, 10 ** 6, 10 ** 3, 3600 * 10 ** 9])
    return out


def check(pid):
    c = Check(pid)
    name, scripts, mod, files = (("log processor", logs(c) if pid == "C25" else faults(c), "Logs", ["pkg/monny/proc/logs.go"]) if pid != "C26" else
                                 ("ticker", tickers(c), "Ticker", ["pkg/monny/proc/ticker.go"]))
    for i, s in enumerate(scripts):
        s["id"] = "p%d" % i

    def timed():
        return run_test_driver(build_test_driver("proc", instrument(files)), [dict(s) for s in scripts], procs=6)

    def raced():
        drv = build_test_driver("proc", instrument(files), race=True)
        sub = scripts if pid == "C26" else scripts[::3]
        return run_test_driver(drv, [dict(s, id="r" + s["id"]) for s in sub], procs=4, env={"VERIF_RACE": "1", "GORACE": "halt_on_error=1"})
    a, b = parallel([timed, raced])
    st = c.validate("Trace" + mod, a + b, {"TInit": "<- %sInit" % mod, "TStep": "<- %sStep" % mod, "TSilent": "<- NoSilent"})
    c.stuck(name, st, scripts + [dict(s, id="r" + s["id"]) for s in scripts])
    return c.finish()
