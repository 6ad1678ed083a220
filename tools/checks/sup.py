"""C01-C09, C11, C14-C16: the supervisor, observed from outside as a process."""
import itertools
from vlib import *

TECHNIQUE = ("TLA+ specification of the supervisor (observer spec/Sup.tla embedded in a design model, checked with TLC); TLC trace "
             "validation of runs of the real monny binary against a scripted command and a scripted collector")
NOTE = ("Design: TLC explores the supervisor's goroutines, limits, collector failures and signals for small bounds. Binding: the monny "
        "binary built from the working tree (also with schedule perturbation) runs a scripted command against a gRPC collector that "
        "fails as scripted; what the outside world saw is one trace that TLC decides. Schedules of the real processes are sampled; "
        "promptness is judged with generous slack so that a loaded machine raises no alarm.")

TEXT = ["text", "text", "text", "empty", "spaces", "utf8", "percent", "binary", "text"]
ODD = TEXT + ["long", "edge", "huge", "tail", "head"]
MATCH = ["m1", "m2", "m12", "mm", "mlong", "mbin", "mmany"]
MIN = 60000
CODES = ["code%d" % i for i in range(1, 17)]
JSONK = ["j3", "jno", "jbad"]
SUCC, FAIL, ALERT, RATE, MEMW, TIMEW, FNC, KILLED = 1, 2, 3, 4, 5, 6, 7, 8
SELFSIG = [2, 6, 8, 9, 10, 11, 13, 15]


def cfg_of(pid, r, **kw):
    c = {"comp": "sup", "asp": [pid], "ho": 30, "he": 30, "rules": 0, "qty": 0, "per": 0, "nos": False, "nof": False,
         "tw": 0, "tk": 0, "mw": 0, "mk": 0, "files": [], "base": [], "slack": 2000, "jit": 500, "memper": 1000, "bin": r.choice(["plain", "instr"]), "mode": [],
         "daemon": False, "speed": 1, "sec": 1000, "full": [], "noerr": True, "lose": False, "calm": False, "nostart": "", "host": "", "errs": "", "env": "", "id": "", "words": []}
    c.update(kw)
    if c["daemon"]:
        c["memper"] = 30000
    if c["speed"] > 1:
        # the clock and the timers of monny are faster, what happens around it is not
        c["bin"] = "fast"
        c["slack"] *= c["speed"]
        c["jit"] *= c["speed"]
    c["base"] = [os.path.basename(f) for f in c["files"]]
    if c["qty"]:
        c["bin"] = r.choice(["rate", "rateinstr"])
    if c["errs"]:
        c["bin"] = "errfast" if c["speed"] > 1 else r.choice(["errs", "errinstr", "plain"] if c["noerr"] else ["errs", "errinstr"])
    return c


def L(st, kinds, last=False, async_=False):
    return {"op": "lines", "st": st, "kinds": list(kinds), "last": last, "async": async_}


def pick(r, kinds, n):
    return [r.choice(kinds) for _ in range(n)]


def ending(r):
    return {"op": "end", "how": "exit", "code": r.choice([0, 0, 1, 3, 255])} if r.random() < .8 else {"op": "end", "how": "signal", "code": r.choice(SELFSIG)}


END0 = {"op": "end", "how": "exit", "code": 0}
JOIN = {"op": "join"}
START = {"op": "start"}


def sig(s, caught=True):
    return {"op": "sig", "s": s, "caught": caught}


def op(name, **kw):
    return dict(kw, op=name)


def output(r, kinds, n, big=20):
    """ops that write output on both streams in some pattern"""
    ops = []
    for _ in range(n):
        k = r.choice([1, 1, 2, 3, big])
        x = r.random()
        if x < .35:
            ops.append(L("o", pick(r, kinds, k), async_=r.random() < .4))
        elif x < .7:
            ops.append(L("e", pick(r, kinds, k), async_=r.random() < .4))
        else:
            ops.append(op("both", o=pick(r, kinds, k), e=pick(r, kinds, r.choice([1, 2, k]))))
    return ops


DEAD = {"op": "awaitdead"}


def heir(r, kinds, k=6, most=900):
    """a process that the command leaves behind, with its output, when it ends"""
    do = []
    for _ in range(r.randint(1, 3)):
        do.append({"ms": r.choice([0, 50, 300, most]), "st": r.choice("oe"), "kinds": pick(r, kinds, r.randint(1, k)), "last": False})
    return {"op": "heir", "do": do}


def frozen(*ops):
    """monny is stopped while the ops happen: it finds all of it at once"""
    return [{"op": "freeze"}] + list(ops) + [{"op": "thaw"}]


def pile(r, kinds):
    """output that fits into the pipes"""
    return [L(st, pick(r, kinds, r.randint(1, 6))) for st in r.sample("oeoe", r.randint(1, 3))]


# ---------------------------------------------------------------- scripts of each property
def c01(r, n):
    out = []
    for kind in sorted(set(ODD)) + ["mlong", "m1"]:
        for st in "oe":
            out.append((dict(rules=r.choice([0, 2])), [START, L(st, [kind]), L(st, ["text"]), L(st, [kind], last=kind != "empty"), END0, JOIN]))
            out.append((dict(rules=0), [START, L(st, [kind, "text", kind] * 4), END0, JOIN]))
    for st in "oe":
        for kind in ("tail", "head"):
            out.append((dict(rules=r.choice([0, 1])), [START, L(st, [kind] * 13), L(st, [kind], last=True), END0, JOIN]))
    for k in (100, 1500):
        out.append((dict(ho=1, he=0), [START, op("both", o=pick(r, TEXT, k), e=pick(r, TEXT, k)), END0, JOIN]))
        out.append((dict(rules=1), [START, L("o", pick(r, TEXT, k), async_=True), L("e", pick(r, TEXT, k), async_=True), ending(r), JOIN]))
    for _ in range(n):
        ops = [START] + output(r, r.choice([TEXT, ODD, TEXT + ["m1"]]), r.randint(1, 6))
        if r.random() < .3:
            ops.append(L(r.choice("oe"), ["text"], last=True))
        out.append((dict(rules=r.randint(0, 3), ho=r.choice([0, 1, 2, 30]), he=r.choice([0, 1, 30])), ops + [ending(r), JOIN]))
    for st in "oe":
        out.append((dict(ho=0, he=0, rules=r.choice([0, 1])), [START, L(st, ["text", "giant", "text", "giant"]), END0, JOIN]))
        out.append((dict(ho=0, he=0), [START, L(st, ["text", "atlas", "text"]), END0, JOIN]))
    for _ in range(n // 6):
        # a process that the command leaves behind goes on writing
        out.append((dict(rules=r.choice([0, 1])), [START] + output(r, TEXT, 2) + [heir(r, TEXT + ["m1", "binary"]), ending(r), JOIN]))
        out.append((dict(tk=r.choice([700, 1000])), [START] + output(r, TEXT, 1) + [heir(r, TEXT, most=1500), op("awaitgone", ms=9000), JOIN]))
        out.append((dict(), [START] + output(r, TEXT, 1) + [heir(r, TEXT, most=1500), sig(r.choice(["int", "term"]), False), JOIN]))
    # stdin
    for sizes in [[3000000, 1000000], [0], [1], [10], [65536], [65537], [70000, 3], [1, 1, 300000], [4096] * 5]:
        ops = [START] + [op("feed", n=k) for k in sizes if k] + [op("feedeof")]
        out.append((dict(mode=["stdin"]), ops + [L("o", ["text"]), END0, JOIN]))
        out.append((dict(mode=["stdin"], rules=1), [START, L("o", ["m1"] * 3)] + ops[1:] + [ending(r), JOIN]))
    for _ in range(n // 6):
        ops = [START]
        for _ in range(r.randint(1, 5)):
            ops += r.choice([[op("feed", n=r.choice([1, 50, 5000, 66000]))], output(r, TEXT, 1), [op("sleep", ms=30)]])
        out.append((dict(mode=["stdin"]), ops + ([op("feedeof")] if r.random() < .8 else []) + output(r, TEXT, 1) + [END0, JOIN]))
    out.append((dict(mode=["stdin"]), [START] + [op("feed", n=k) for k in (5000000, 70000000, 1)] + [op("feedeof"), L("o", ["text"]), END0, JOIN]))
    # a command that does not read its input
    for k in (1, 5000, 60000):
        out.append((dict(mode=["closein"]), [START, op("feed", n=k), op("sleep", ms=100), L("o", ["text"] * 3), L("e", ["text"]), ending(r), JOIN]))
        out.append((dict(mode=["closein"], rules=1), [START, op("feed", n=k), L("o", ["m1"] * 3), op("sleep", ms=50), op("feed", n=1), op("alive"), L("e", ["text"]), END0, JOIN]))
    for _ in range(n // 6):
        out.append((dict(rules=r.choice([0, 1])), [START] + frozen(*(pile(r, TEXT + ["m1"]) + [ending(r), DEAD])) + [JOIN]))
        out.append((dict(mode=["catch"]), [START] + frozen(*(pile(r, TEXT) + [sig("term", False)] + pile(r, TEXT))) + pile(r, TEXT) + [ending(r), JOIN]))
    # while it shuts down after a signal
    for _ in range(n // 5):
        ops = [START] + output(r, TEXT, 1) + [sig(r.choice(["int", "term"]))]
        for _ in range(r.randint(1, 3)):
            ops += output(r, TEXT, 1, 200)
            if r.random() < .3:
                ops.append(op("sleep", ms=r.choice([50, 400])))
            if r.random() < .3:
                ops.append(sig(r.choice(["int", "term"])))
        out.append((dict(mode=["catch"]), ops + [ending(r), JOIN]))
    # long after a signal
    for st in "oe":
        out.append((dict(mode=["catch"]), [START, L(st, ["text"]), sig("term"), op("sleep", ms=2600), op("both", o=pick(r, TEXT, 4), e=pick(r, TEXT, 4)), op("sleep", ms=2600), L(st, ["text"]), END0, JOIN]))
        for speed in (30, 300):
            out.append((dict(mode=["catch"], speed=speed, rules=r.choice([0, 1])), [START, sig("int"), L(st, pick(r, TEXT, 3)), op("sleep", ms=2500), op("both", o=pick(r, TEXT, 40), e=pick(r, TEXT, 4)), op("sleep", ms=2500),
                                                              L(st, pick(r, TEXT, 3)), ending(r), JOIN]))
    # long silence, long runs
    for speed in (30, 300, 3000):
        out.append((dict(speed=speed, tw=r.choice([0, MIN])), [START, L("o", pick(r, TEXT, 5)), op("sleep", ms=3000), op("both", o=pick(r, TEXT, 20), e=pick(r, TEXT, 20)), op("sleep", ms=1500), L("e", ["text"]), ending(r), JOIN]))
        out.append((dict(speed=speed, mode=["stdin"]), [START, op("feed", n=70000), op("sleep", ms=2500), op("feed", n=500), L("o", ["text"]), op("sleep", ms=1000), op("feedeof"), L("e", ["text"]), END0, JOIN]))
    # killed: what was written before still passes
    for _ in range(n // 20):
        out.append((dict(tk=900), [START, L("o", pick(r, TEXT, 100)), L("e", pick(r, TEXT, 100)), op("awaitgone", ms=10000), JOIN]))
    # trouble with reports, warnings
    for _ in range(n // 10):
        out.append((dict(rules=2, tw=r.choice([0, 200])), [START, op("acks", kinds=pick(r, ["error", "nack", "drop", "slow"], 2))] + output(r, TEXT + ["m1"], 3) +
                    [op("sleep", ms=300)] + output(r, TEXT, 2) + [ending(r), JOIN]))
    # a command that ends at once
    for _ in range(n // 3):
        do = [{"st": r.choice("oe"), "kinds": pick(r, ["text", "text", "binary", "long"], r.choice([1, 3, 30])), "last": r.random() < .1} for _ in range(r.choice([1, 1, 3]))]
        for i, d in enumerate(do):
            d["last"] = d["last"] and all(x["st"] != d["st"] for x in do[i + 1:])
        out.append((dict(), [op("quick", do=do, how="exit", code=r.choice([0, 1])), JOIN]))
    return out


def c02(r, n):
    out = []
    hs = [0, 1, 2, 3, 5, 30, 100]
    for h in hs:
        for k in sorted({0, 1, h - 1, h, h + 1, 2 * h + 3} - {-1}):
            for st in "oe":
                c = dict(ho=h, he=r.choice(hs)) if st == "o" else dict(he=h, ho=r.choice(hs))
                ops = [START] + ([L(st, pick(r, TEXT, k))] if k else []) + [ending(r), JOIN]
                out.append((c, ops))
    for st in "oe":
        for kind in ("tail", "head"):
            out.append((dict({"h" + st: 30}, rules=r.choice([0, 1])), [START, L(st, [kind] * 13), L(st, [kind], last=r.random() < .5), ending(r), JOIN]))
    # what happens between the output and the report leaves the history as it is
    for tw, kw in ((150, {}), (150, dict(rules=1)), (0, dict(mw=100000)), (150, dict(mw=100000, daemon=False))):
        out.append((dict(kw, ho=r.choice(hs[1:]), he=30, tw=tw), [START, op("both", o=pick(r, TEXT, 6), e=pick(r, TEXT, 6))] + ([op("mem", mb=150)] if kw.get("mw") else []) +
                    [op("passed"), op("sleep", ms=4500 if kw.get("mw") else 400), ending(r), JOIN]))
    for st in "oe":     # a line of 3 MB in the history
        out.append((dict({"h" + st: r.choice([1, 2, 30])}, rules=r.choice([0, 1])), [START, L(st, ["text", "giant", "text"][:r.choice([2, 3])]), ending(r), JOIN]))
    for _ in range(n):
        c = dict(ho=r.choice(hs), he=r.choice(hs), rules=r.choice([0, 2, 3]), tw=r.choice([0, 0, 0, 150]))
        ops = [START]
        for _ in range(r.randint(1, 4)):
            ops += output(r, r.choice([TEXT, TEXT + MATCH[:4], TEXT + ["long", "mbin", "binary"]]), r.randint(1, 3))
            ops += r.choice([[], [op("passed")], [op("sleep", ms=150)], [op("acks", kinds=["slow", "error"])]])
        if r.random() < .25:
            c["mode"] = ["catch"]
            ops += [op("passed"), sig("int")] + output(r, TEXT, 1)
        if r.random() < .2:
            c["files"] = ["missing"]
        if r.random() < .2:
            ops.append(L(r.choice("oe"), ["text"], last=True))
        out.append((c, ops + [ending(r), JOIN]))
    for _ in range(n // 5):
        out.append((dict(ho=r.choice(hs), he=r.choice(hs), rules=r.choice([0, 2]), tw=r.choice([0, 100])), [START] + pile(r, TEXT) + frozen(*(pile(r, TEXT + ["m1"]) + [op("sleep", ms=150), ending(r), DEAD])) + [JOIN]))
    for h in (250, 1000, 4000):
        for k in (h - 1, h + 1, h + 700):
            out.append((dict(ho=h, he=2), [START, L("o", pick(r, TEXT, k)), L("e", pick(r, TEXT, 3)), ending(r), JOIN]))
    for _ in range(n // 8):
        out.append((dict(ho=r.choice(hs), he=r.choice(hs), rules=r.choice([0, 2])), [START] + output(r, TEXT, 2) + [heir(r, TEXT + ["m1"]), ending(r), JOIN]))
    for _ in range(n // 15):
        out.append((dict(ho=r.choice(hs), he=r.choice(hs), tk=700), [START] + output(r, TEXT, 3) + [op("awaitgone", ms=10000), JOIN]))
    for _ in range(n // 4):
        do = [{"st": s, "kinds": pick(r, TEXT, r.choice([1, 5, 40])), "last": False} for s in "oe"]
        out.append((dict(ho=r.choice(hs), he=r.choice(hs)), [op("quick", do=do, how="exit", code=r.choice([0, 1])), JOIN]))
    return out


def c03(r, n):
    out = []
    for code in [0, 1, 2, 3, 42, 126, 127, 128, 137, 200, 254, 255]:
        out.append((dict(), [START, op("end", how="exit", code=code), JOIN]))
        out.append((dict(), [op("quick", do=[], how="exit", code=code), JOIN]))
    for s in SELFSIG:
        out.append((dict(), [START, op("end", how="signal", code=s), JOIN]))
        out.append((dict(nof=True), [START, op("end", how="signal", code=s), JOIN]))
    for nos, nof in itertools.product([False, True], repeat=2):
        for end in [END0, op("end", how="exit", code=1), op("end", how="signal", code=9)]:
            out.append((dict(nos=nos, nof=nof), [START, end, JOIN]))
            out.append((dict(nos=nos, nof=nof, rules=1, tw=300, files=["gone", "there"]),
                        [START, L("o", ["m1", "text"]), op("file", i=2, size=10), op("sleep", ms=3000), end, JOIN]))
            out.append((dict(nos=nos, nof=nof, files=["there"]), [START, op("file", i=1, size=0), end, JOIN]))
            out.append((dict(nos=nos, nof=nof, mode=["catch"]), [START, sig("term"), end, JOIN]))
        out.append((dict(nos=nos, nof=nof, tk=700), [START, op("awaitgone", ms=9700), JOIN]))
        out.append((dict(nos=nos, nof=nof, mw=150000, mk=0), [START, op("mem", mb=200), op("sleep", ms=3500), END0, JOIN]))
    for _ in range(n):
        c = dict(nos=r.random() < .3, nof=r.random() < .3, rules=r.choice([0, 1, 2]), files=r.choice([[], [], ["a"], ["a", "b"]]),
                 tw=r.choice([0, 0, 100]), daemon=r.random() < .2)
        ops = [START] + output(r, TEXT + ["m1"], r.randint(0, 2))
        for i in range(len(c["files"])):
            if r.random() < .7:
                ops.append(op("file", i=i + 1, size=r.choice([0, 1, 1000])))
        if r.random() < .35:
            ops.append(op("sleep", ms=r.choice([150, 1100, 2300])))
        if r.random() < .2:
            ops.insert(1, op("acks", kinds=pick(r, ["error", "nack", "slow"], 2)))
        out.append((c, ops + [ending(r), JOIN]))
    for _ in range(n // 3):
        how = r.choice([("exit", 0), ("exit", 0), ("exit", 1), ("exit", 77), ("signal", 9), ("signal", 6)])
        out.append((dict(nos=r.random() < .2, nof=r.random() < .2, rules=r.choice([0, 2])),
                    [op("quick", do=[{"st": "o", "kinds": pick(r, TEXT + ["m1"], r.choice([1, 5])), "last": False}] if r.random() < .6 else [], how=how[0], code=how[1]), JOIN]))
    # alerts are acknowledged just when the command ends
    for i in range(n // 3):
        k = r.choice([1, 4, 8])
        ops = [START, op("acks", kinds=[], always="hold"), L(r.choice("oe"), ["m1"] * k), op("awaitreq", n=k)]
        end = END0 if i % 4 else ending(r)
        ops += r.choice([[end, op("release")], [end, op("sleep", ms=r.randint(1, 25)), op("release")], [end, op("sleep", ms=r.randint(1, 10)), op("release")], [op("release"), end]])
        out.append((dict(rules=1, bin=r.choice(["instr", "instr", "plain"]), tw=r.choice([0, 0, 60])), ops + [JOIN]))
    for what in ("missing", "name", "dir", "mode", "format", "interpreter"):
        for k in (dict(), dict(rules=1, tk=5000, tw=100, mk=500000, files=["f"], daemon=r.random() < .5)):
            out.append((dict(k, nostart=what, words=r.choice(WORDS[:2])), [op("attempt"), JOIN]))
    for _ in range(n // 8):
        out.append((dict(files=r.choice([[], ["a"]]), tw=r.choice([0, 100])), [START, heir(r, TEXT + ["m1"]), ending(r), JOIN]))
    for _ in range(n // 3):
        out.append((dict(nos=r.random() < .2, nof=r.random() < .2, files=r.choice([[], ["a"]]), tw=r.choice([0, 50])),
                    [START] + frozen(*(pile(r, TEXT) + [op("sleep", ms=r.choice([20, 100])), ending(r), DEAD])) + [JOIN]))
    return out


def c04(r, n):
    out = []
    for _ in range(n // 2):
        out.append((dict(rules=2, files=r.choice([[], ["a", "b"]]), tw=r.choice([0, 50]), tk=r.choice([0, 0, 600])),
                    [START] + frozen(*(pile(r, TEXT + MATCH[:4]) + [op("sleep", ms=r.choice([60, 100, 700])), ending(r), DEAD])) + [JOIN]))
    for end in [END0, op("end", how="exit", code=1), op("end", how="signal", code=9)]:
        out.append((dict(), [START, op("acks", kinds=[], always="hold"), end, op("awaitreq", n=1), op("sleep", ms=1200), op("release"), JOIN]))
        out.append((dict(rules=2), [START, op("acks", kinds=[], always="hold"), L("o", ["m1", "m2", "m12"] * 3), L("e", ["mm"]), end,
                                    op("awaitreq", n=11), op("sleep", ms=900), op("release"), JOIN]))
        out.append((dict(files=["x", "y"]), [START, op("acks", kinds=[], always="hold"), end, op("awaitreq", n=2), op("sleep", ms=900), op("release"), JOIN]))
        out.append((dict(), [START, op("down"), end, op("sleep", ms=2500), op("up"), JOIN]))
        out.append((dict(mode=["stdin"]), [START, op("feed", n=100), end, JOIN]))
        out.append((dict(mode=["stdin"], rules=1), [START, L("o", ["m1"]), end, JOIN]))
        out.append((dict(mode=["catch"]), [START, op("acks", kinds=[], always="hold"), sig("term"), op("sleep", ms=300), end, op("sleep", ms=1000), op("release"), JOIN]))
    out.append((dict(tk=600), [START, op("acks", kinds=[], always="hold"), op("awaitgone", ms=9600), op("sleep", ms=1000), op("release"), JOIN]))
    out.append((dict(tw=300), [START, op("acks", kinds=[], always="hold"), op("sleep", ms=2500), END0, op("sleep", ms=1000), op("release"), JOIN]))
    out.append((dict(tw=300), [START, op("acks", kinds=["hold"]), op("awaitreq", n=1), END0, op("sleep", ms=1000), op("release"), JOIN]))
    out.append((dict(rules=1), [START, L("o", ["m1"] * 80), L("e", ["m1"] * 40), END0, JOIN]))
    for _ in range(n // 8):
        out.append((dict(rules=2, files=r.choice([[], ["x"]])), [START, op("acks", kinds=pick(r, ["hold", "slow", "ok"], 2)), heir(r, TEXT + ["m1"]), ending(r), op("sleep", ms=r.choice([100, 1200])), op("release"), JOIN]))
    # reports that are acknowledged only after minutes
    for speed, d in ((30, 1500), (30, 4000), (300, 1500), (300, 4000), (300, 7500)):
        k = dict(speed=speed)
        held_, late = op("acks", kinds=[], always="hold"), [op("sleep", ms=d), op("release"), JOIN]
        out.append((k, [START, held_, ending(r)] + late))
        out.append((dict(k, rules=1, files=["x"], nos=r.random() < .5), [START, held_, L("o", ["m1", "text"]), END0] + late))
        out.append((dict(k, mode=["catch"]), [START, held_, sig("term"), ending(r)] + late))
        out.append((dict(k, tk=MIN), [START, held_, op("awaitgone", ms=10000 + MIN // speed)] + late))
        out.append((dict(k, rules=2), [START, op("down"), L("e", ["m1"]), END0, op("sleep", ms=d), op("up"), JOIN]))
    for _ in range(n):
        # quick commands
        do = [{"st": r.choice("oe"), "kinds": pick(r, TEXT + MATCH[:4], r.choice([1, 2, 10])), "last": False} for _ in range(r.randint(0, 3))]
        ops = [op("quick", do=do, how=r.choice(["exit", "exit", "exit", "signal"]), code=r.choice([0, 0, 1]))]
        if ops[0]["how"] == "signal":
            ops[0]["code"] = r.choice([9, 15])
        ops.append(JOIN)
        if r.random() < .4:
            ops.insert(0, op("acks", kinds=pick(r, ["slow", "error", "nack"], 2)))
        out.append((dict(rules=r.choice([0, 2, 3]), files=r.choice([[], [], ["a"], ["a", "b", "c"]]), nos=r.random() < .15, nof=r.random() < .15), ops))
    for _ in range(n):
        c = dict(rules=r.choice([1, 2, 3]), tw=r.choice([0, 100, 100]), files=r.choice([[], ["a"], ["a", "b"]]), nos=r.random() < .3, nof=r.random() < .3)
        ops = [START]
        if r.random() < .7:
            ops.append(op("acks", kinds=pick(r, ["slow", "hold", "ok", "error"], r.randint(1, 5))))
        ops += output(r, TEXT + MATCH[:4], r.randint(1, 3), 8)
        if r.random() < .4:
            ops.append(op("sleep", ms=r.choice([50, 200, 700])))
        if r.random() < .2:
            c["mode"] = ["catch"]
            ops.append(sig("int"))
        ops += [ending(r), op("sleep", ms=r.choice([100, 700, 1500])), op("release"), JOIN]
        out.append((c, ops))
    return out


def c05(r, n):
    out = []
    triggers = {
        "success": (dict(), [], [END0]),
        "failure": (dict(), [], [op("end", how="exit", code=9)]),
        "alert": (dict(rules=1), [L("o", ["text", "m1"])], [END0]),
        "alerts": (dict(rules=2), [L("o", ["m1", "text"]), L("e", ["m2"])], [END0]),
        "fnc": (dict(files=["nope"]), [], [END0]),
        "killed": (dict(mode=["catch"]), [sig("term")], [END0]),
        "tw": (dict(tw=100), [op("sleep", ms=300)], [END0]),
    }
    bad = ["error", "nack", "drop"] + r.sample(CODES, 3)
    for name, (c, mid, end) in triggers.items():
        for kinds in [["error"], ["nack"], ["drop"], ["nack", "error"], ["drop", "drop", "error"], ["error", "error", "nack", "ok", "nack"]]:
            out.append((c, [START, op("acks", kinds=kinds)] + mid + ([op("alive"), L("o", ["text"] * 30), L("e", ["text"] * 3)] if mid else []) + end + [JOIN]))
        out.append((c, [START, op("down")] + mid + [op("alive"), L("o", ["text"] * 20)] + end + [op("sleep", ms=r.choice([700, 1800])), op("up"), JOIN]))
        out.append((c, [op("down"), START] + mid + [op("sleep", ms=900), op("up"), L("e", ["text"] * 20)] + end + [JOIN]))
        # held long, then answered, with more output in between
        out.append((c, [START, op("acks", kinds=["hold"])] + mid + [L("o", ["text"] * 40), op("alive")] + end + [op("awaitreq", n=1), op("sleep", ms=1500), op("release"), JOIN]))
        # cut off while held
        out.append((c, [START, op("acks", kinds=["hold", "hold"])] + mid + end + [op("awaitreq", n=1), op("down"), op("sleep", ms=600), op("release"), op("up"), JOIN]))
    # whatever the error is
    for name in ("success", "alert", "killed", "fnc"):
        c, mid, end = triggers[name]
        for i in range(0, 16, 4):
            out.append((c, [START, op("acks", kinds=CODES[i:i + 4])] + mid + end + [JOIN]))
    # most of an hour of attempts
    for name in ("success", "alert", "killed", "fnc", "tw"):
        c, mid, end = triggers[name]
        k = dict(c, speed=300, tw=MIN if c.get("tw") else 0)
        mid = [op("sleep", ms=500)] if c.get("tw") else mid
        # 15 to 40 minutes without collector
        out.append((k, [START, op("down")] + mid + end + [op("sleep", ms=r.choice([3000, 5000, 7000])), op("up"), JOIN]))
        out.append((k, [START, op("acks", kinds=pick(r, bad + CODES, 25))] + mid + end + [JOIN]))
        # an attempt that takes long
        out.append((k, [START, op("acks", kinds=["hold"])] + mid + [L("o", ["text"] * 20)] + end + [op("sleep", ms=r.choice([1000, 3000, 7000])), op("release"), JOIN]))
        if name in ("success", "killed"):
            # 49 minutes
            out.append((k, [START, op("down")] + mid + end + [op("sleep", ms=9800), op("up"), JOIN]))
    # refused for longer than an hour
    for name in ("success", "alert", "killed"):
        c, mid, end = triggers[name]
        k = dict(c, speed=300, asp=["C05giveup"])
        out.append((k, [START, op("acks", kinds=["nack"], always=r.choice(["error", "nack", "drop"]))] + mid + (end if name == "success" else [op("alive")]) + [op("sleep", ms=17000), JOIN if name == "success" else op("alive")] +
                    ([] if name == "success" else [op("release")] + end + [JOIN])))
    # longer than that: reports may be given up, but the command is left alone
    for name in ("alerts", "tw"):
        c, mid, end = triggers[name]
        k = dict(c, speed=1000, asp=["C05giveup"], tw=MIN if c.get("tw") else 0)
        more = [L("o", ["text"] * 20), op("alive")]
        out.append((k, [START, op("down")] + mid + [op("sleep", ms=5500)] + more + [op("up")] + end + [JOIN]))
        for hold in (["hold"] * 3, ["hold", "drop", "hold"]):
            out.append((k, [START, op("acks", kinds=hold, always="hold")] + mid + [op("sleep", ms=5500)] + more + [op("release"), op("sleep", ms=300)] + more + end + [JOIN]))
            out.append((k, [START, op("acks", kinds=hold, always="hold")] + mid + end + [op("sleep", ms=5500), op("release"), JOIN]))
    # the collector fails, the command goes on for long
    for _ in range(max(2, n // 12)):
        out.append((dict(rules=2), [START, op("acks", kinds=pick(r, bad, 3)), L("o", pick(r, TEXT + ["m1"], 6))] +
                    sum([[L(r.choice("oe"), pick(r, TEXT, 30)), op("sleep", ms=500), op("alive")] for _ in range(8)], []) +
                    [op("await", reason=ALERT, n=1), op("sleep", ms=1500), END0, JOIN]))
    for _ in range(n):
        c = dict(rules=r.choice([0, 1, 2]), tw=r.choice([0, 0, 100]), files=r.choice([[], ["f"], ["f", "g"]]), ho=r.choice([2, 30]),
                 nos=r.random() < .2, nof=r.random() < .2)
        ops = [START, op("acks", kinds=pick(r, bad + ["ok", "slow"], r.randint(1, 5)))]
        ops += output(r, TEXT + (["m1", "m2"] if c["rules"] else []), r.randint(1, 3), 5)
        if r.random() < .3:
            ops += [op("down"), op("sleep", ms=r.choice([100, 600])), op("alive"), op("up")] if not (c["rules"] or c["tw"]) else [op("alive")]
        if r.random() < .4:
            ops.append(op("sleep", ms=r.choice([200, 1000])))
        ops += output(r, TEXT, 1)
        out.append((c, ops + [ending(r), JOIN]))
    return out


def c06(r, n):
    out = []
    # over the time
    for tk in (300, 700, 1500):
        for mode in ([], ["catch"], ["stdin"]):
            out.append((dict(tk=tk, mode=mode), [START, L("o", ["text"]), op("awaitgone", ms=tk + 9000), JOIN]))
        out.append((dict(tk=tk, mode=["catch"], rules=1, tw=100), [START, L("o", ["m1"]), op("awaitgone", ms=tk + 9000), JOIN]))
        out.append((dict(tk=tk), [START, op("acks", kinds=["error", "nack"])] + [op("awaitgone", ms=tk + 9000), JOIN]))
        out.append((dict(tk=tk, nos=True, nof=True, files=["f"]), [START, op("awaitgone", ms=tk + 9000), JOIN]))
        out.append((dict(tk=tk, daemon=True), [START, op("awaitgone", ms=tk + 9000), JOIN]))
    # within the time
    for tk in (1500, 2500, 60000):
        for d in (0, 200, 900):
            out.append((dict(tk=tk), [START, op("sleep", ms=d), ending(r), JOIN]))
            out.append((dict(tk=tk, rules=1, files=["f"]), [START, L("o", ["m1"]), op("sleep", ms=d), END0, op("acks", kinds=["slow", "error"]), JOIN]))
    # it ends in time, but its reports are delivered only after the limit
    for end in (END0, op("end", how="exit", code=4)):
        out.append((dict(tk=1800), [START, op("acks", kinds=[], always="hold"), op("sleep", ms=300), end, op("sleep", ms=2600), op("release"), JOIN]))
    # close to the limit
    for d in range(0, 12 if not THOROUGH else 60):
        out.append((dict(tk=1000), [START, op("sleep", ms=900 + 10 * d), ending(r), JOIN]))
    # it ends about when the limit is reached
    for i in range(n // 2):
        out.append((dict(tk=900, mode=["catch"] if i % 4 == 0 else []), [START, op("sleep", ms=600)] + frozen(ending(r), DEAD, op("sleep", ms=500)) + [JOIN]))
        # a signal at about that time
        out.append((dict(tk=900, mode=r.choice([[], ["catch"]])), [START, op("sleep", ms=500)] + frozen(sig(r.choice(["int", "term"]), False), op("sleep", ms=600)) + [op("awaitgone", ms=10000), JOIN]))
    # memory
    for _ in range(2 if not THOROUGH else 6):
        out.append((dict(mk=150000), [START, op("mem", mb=200), op("awaitgone", ms=10000), JOIN]))
        out.append((dict(mk=150000, mode=["catch"], tk=60000), [START, op("sleep", ms=1300), op("mem", mb=200), op("awaitgone", ms=10000), JOIN]))
        out.append((dict(mk=150000), [START, op("mem", mb=40), op("sleep", ms=2500), op("alive"), ending(r), JOIN]))
        out.append((dict(mw=50000, mk=150000), [START, op("mem", mb=90), op("sleep", ms=2600), op("alive"), ending(r), JOIN]))
        out.append((dict(mw=50000, mk=150000), [START, op("mem", mb=90), op("sleep", ms=2600), op("mem", mb=200), op("awaitgone", ms=10000), JOIN]))
        out.append((dict(mw=50000), [START, op("mem", mb=200), op("sleep", ms=3000), op("alive"), ending(r), JOIN]))
        out.append((dict(mk=400000), [START, op("mem", mb=100), op("sleep", ms=2600), op("mem", mb=150), op("sleep", ms=2200), op("alive"), END0, JOIN]))
        # above the limit only after a signal
        out.append((dict(mk=150000, mode=["catch"]), [START, sig(r.choice(["int", "term"])), op("sleep", ms=r.choice([100, 1500])), op("mem", mb=200), op("awaitgone", ms=10000), JOIN]))
        # collector trouble while it is killed
        out.append((dict(mk=150000), [START, op("acks", kinds=["nack", "error"]), op("mem", mb=200), op("awaitgone", ms=10000), JOIN]))
    # all limits together
    for first in ("time", "memory"):
        out.append((dict(tw=500, tk=60000, mw=50000, mk=150000), [START] + ([op("mem", mb=90)] if first == "memory" else []) + [op("sleep", ms=2200), op("alive"), op("mem", mb=200), op("awaitgone", ms=10000), JOIN]))
        out.append((dict(tw=500, mk=150000, rules=1), [START, L("o", ["m1"])] + ([op("mem", mb=90)] if first == "memory" else []) + [op("sleep", ms=1700), op("mem", mb=200), op("awaitgone", ms=10000), JOIN]))
        out.append((dict(mw=50000, tk=3000, tw=1500 if first == "time" else 0), [START, op("mem", mb=90), op("awaitgone", ms=12000), JOIN]))
        # a warning shortly before the limit
        out.append((dict(tw=8900 if first == "time" else 6000, tk=9000, slack=1500, mw=50000 if first == "memory" else 0), [START, op("sleep", ms=5000)] + ([op("mem", mb=90)] if first == "memory" else []) + [op("awaitgone", ms=10600), JOIN]))
    # output and matches do not put the limit off
    out.append((dict(tk=6000, slack=1000, rules=1), [START] + [x for i in range(6) for x in (op("sleep", ms=900), L("oe"[i % 2], ["m1", "text"]))] + [op("awaitgone", ms=5500), JOIN]))
    # hours
    for speed, tk in ((30, 2 * MIN), (300, 15 * MIN), (1000, 60 * MIN), (3000, 240 * MIN)):
        k = dict(tk=tk, speed=speed)
        out.append((dict(k, mode=["catch"], tw=r.choice([0, tk // 2])), [START, L("o", ["text"]), op("awaitgone", ms=tk // speed + 9000), JOIN]))
        out.append((dict(k, rules=1, daemon=True), [START, L("o", ["m1"]), op("awaitgone", ms=tk // speed + 9000), JOIN]))
        out.append((k, [START, op("sleep", ms=tk // speed // 3), ending(r), JOIN]))
        out.append((dict(k, tk=20 * tk), [START, L("o", ["text"]), op("sleep", ms=tk // speed), op("alive"), ending(r), JOIN]))
        # without limits
        out.append((dict(speed=speed, tw=tk // 2), [START, L("o", ["text"]), op("sleep", ms=tk // speed), op("alive"), ending(r), JOIN]))
    out.append((dict(speed=30, daemon=True, mk=150000, mw=50000), [START, op("mem", mb=90), op("sleep", ms=1500), op("mem", mb=200), op("awaitgone", ms=13000), JOIN]))
    out.append((dict(speed=30, daemon=True, mk=400000, mw=50000), [START, op("mem", mb=90), op("sleep", ms=4000), op("alive"), ending(r), JOIN]))
    # no limits
    out.append((dict(), [START, op("mem", mb=300), op("sleep", ms=3500), op("alive"), ending(r), JOIN]))
    out.append((dict(tw=100), [START, op("sleep", ms=2500), op("alive"), ending(r), JOIN]))
    out.append((dict(mode=["catch"]), [START, sig("int"), op("sleep", ms=2500), op("alive"), END0, JOIN]))
    for _ in range(n // 2):
        c = dict(tk=r.choice([0, 800, 60000]), tw=r.choice([0, 200]), rules=r.choice([0, 1]), mode=r.choice([[], ["catch"]]), files=r.choice([[], ["f"]]),
                 nos=r.random() < .2, nof=r.random() < .2)
        ops = [START] + output(r, TEXT + ["m1"], 2) + [op("sleep", ms=r.choice([0, 100, 300, 1500]))]
        if c["mode"] and r.random() < .3:
            ops.append(sig("term"))
        if c["tk"] == 800 and r.random() < .5:
            ops += [op("awaitgone", ms=9800)]
        out.append((c, ops + [ending(r), JOIN]))
    return out


def c07(r, n):
    out = []
    for tw in (200, 900):
        for d in (0, 3200):
            out.append((dict(tw=tw), [START, op("sleep", ms=d), ending(r), JOIN]))
            out.append((dict(tw=tw, rules=1), [START, op("acks", kinds=["error", "nack"]), op("sleep", ms=d), L("o", ["m1"]), ending(r), JOIN]))
        out.append((dict(tw=tw), [START, op("sleep", ms=6000), op("alive"), END0, JOIN]))
        out.append((dict(tw=tw, daemon=True), [START, op("sleep", ms=3200), op("alive"), END0, JOIN]))
        out.append((dict(tw=tw, nos=True, nof=True), [START, op("sleep", ms=3200), ending(r), JOIN]))
        out.append((dict(tw=tw, tk=4500), [START, op("awaitgone", ms=14000), JOIN]))
        out.append((dict(tw=tw, mode=["catch"]), [START, op("sleep", ms=100), op("alive"), sig("int"), op("sleep", ms=2500), END0, JOIN]))
    # whatever else is switched off, and after a signal
    for dae in (False, True):
        for nos in (False, True):
            for nof in (False, True):
                out.append((dict(tw=r.choice([200, 700]), daemon=dae, nos=nos, nof=nof), [START, op("sleep", ms=3400), ending(r), JOIN]))
    for how in ("int", "term"):
        out.append((dict(tw=1500, mode=["catch"], rules=r.choice([0, 1])), [START, op("sleep", ms=300), sig(how), op("sleep", ms=4200), op("alive"), ending(r), JOIN]))
        out.append((dict(mw=150000, mode=["catch"]), [START, sig(how), op("sleep", ms=300), op("mem", mb=200), op("sleep", ms=4500), op("alive"), ending(r), JOIN]))
    for d in range(0, 8):
        out.append((dict(tw=700), [START, op("sleep", ms=650 + 10 * d), ending(r), JOIN]))
    out.append((dict(tw=60000), [START, op("sleep", ms=1500), ending(r), JOIN]))
    for _ in range(2 if not THOROUGH else 6):
        out.append((dict(mw=150000), [START, op("mem", mb=200), op("sleep", ms=6500), op("alive"), ending(r), JOIN]))
        out.append((dict(mw=150000), [START, op("mem", mb=200), op("sleep", ms=4500), op("mem", mb=20), op("sleep", ms=2500), op("mem", mb=250), op("sleep", ms=2500), ending(r), JOIN]))
        out.append((dict(mw=150000), [START, op("mem", mb=60), op("sleep", ms=3200), op("alive"), ending(r), JOIN]))
        out.append((dict(mw=150000, tw=500), [START, op("acks", kinds=["nack", "error", "nack"]), op("mem", mb=200), op("sleep", ms=4500), op("alive"), ending(r), JOIN]))
        out.append((dict(mw=150000, mk=500000, tw=500, tk=60000), [START, op("mem", mb=200), op("sleep", ms=5000), op("alive"), ending(r), JOIN]))
        out.append((dict(mk=500000), [START, op("mem", mb=200), op("sleep", ms=2500), ending(r), JOIN]))
        out.append((dict(mw=150000, nos=True, nof=True, rules=1), [START, L("o", ["m1"] * 3), op("mem", mb=200), op("sleep", ms=4500), ending(r), JOIN]))
    out.append((dict(), [START, op("mem", mb=200), op("sleep", ms=2500), ending(r), JOIN]))
    # killed at a limit above that of the warning, or at the same
    for mw, mk in ((150000, 150000), (100000, 150000), (50000, 150000), (150000, 100000)):
        out.append((dict(mw=mw, mk=mk, rules=r.choice([0, 1])), [START, L("o", ["m1"]), op("sleep", ms=r.choice([0, 700])), op("mem", mb=200), op("awaitgone", ms=10000), JOIN]))
    for tw in (200, 1000):
        out.append((dict(tw=tw, tk=4000, mw=r.choice([0, 50000]), nof=True), [START] + r.choice([[], [op("mem", mb=100)]]) + [op("awaitgone", ms=14000), JOIN]))
    # one warning before the other
    out.append((dict(mw=150000, tw=2600), [START, op("mem", mb=200), op("sleep", ms=6000), op("alive"), ending(r), JOIN]))
    out.append((dict(mw=150000, tw=400), [START, op("sleep", ms=1500), op("mem", mb=200), op("sleep", ms=4500), op("alive"), ending(r), JOIN]))
    out.append((dict(mw=150000, tw=2600, rules=1), [START, op("acks", kinds=["hold"]), op("mem", mb=200), op("sleep", ms=3500), L("o", ["m1"]), op("sleep", ms=2500), op("release"), ending(r), JOIN]))
    # up and down
    for low, high in ((5, 200), (60, 160), (100, 300)):
        out.append((dict(mw=150000, tw=r.choice([0, 1500])), [START] + [x for _ in range(3) for x in (op("mem", mb=high), op("sleep", ms=1600), op("mem", mb=low), op("sleep", ms=1600))] + [op("mem", mb=high), op("sleep", ms=3500), op("alive"), ending(r), JOIN]))
    # hours
    for speed, tw in ((30, MIN), (300, 15 * MIN), (1000, 60 * MIN), (3000, 120 * MIN)):
        k = dict(tw=tw, speed=speed)
        out.append((k, [START, op("sleep", ms=tw // speed + 3000), ending(r), JOIN]))
        out.append((dict(k, rules=1, daemon=True), [START, L("o", ["m1"]), op("sleep", ms=tw // speed + 4000), op("alive"), L("o", ["m1"]), ending(r), JOIN]))
        out.append((dict(k, tw=20 * tw), [START, op("sleep", ms=tw // speed), ending(r), JOIN]))
        out.append((dict(k, tk=tw + 4000 * speed), [START, op("awaitgone", ms=tw // speed + 13000), JOIN]))
    out.append((dict(speed=30, daemon=True, mw=150000), [START, op("mem", mb=200), op("sleep", ms=4500), op("alive"), op("mem", mb=10), op("sleep", ms=2000), op("mem", mb=200), op("sleep", ms=2000), ending(r), JOIN]))
    out.append((dict(speed=30, daemon=True, mw=150000), [START, op("mem", mb=200), op("sleep", ms=5500), op("alive"), ending(r), JOIN]))
    out.append((dict(speed=30, daemon=True, mw=150000, tw=MIN, rules=1), [START, op("sleep", ms=700), op("mem", mb=200), L("o", ["m1"]), op("sleep", ms=5500), op("alive"), ending(r), JOIN]))
    for _ in range(n // 3):
        c = dict(tw=r.choice([0, 100, 400, 5000]), rules=r.choice([0, 1]), nos=r.random() < .2, nof=r.random() < .2)
        out.append((c, [START] + output(r, TEXT + ["m1"], 2) + [op("sleep", ms=r.choice([0, 200, 700, 3000]))] + output(r, TEXT, 1) + [ending(r), JOIN]))
    return out


def c08(r, n):
    out = []
    for rules in (1, 2, 3):
        for kind in MATCH + JSONK + ["text", "empty", "binary", "long"]:
            for st in "oe":
                out.append((dict(rules=rules), [START, L(st, ["text", kind, "text"], last=False), ending(r), JOIN]))
    out.append((dict(rules=2), [START, L("o", ["text", "m1"], last=True), L("e", ["m2"], last=True), END0, JOIN]))
    for n_ in (3, 40):
        out.append((dict(rules=2), [START, op("both", o=["m1", "m2"] * n_, e=["m12", "text"] * n_), END0, JOIN]))
    kinds = ["text", "text", "m1", "m2", "m12", "mm", "mbin", "mmany", "j3", "jno", "jbad", "utf8"]
    for _ in range(n):
        # matches while alerts are delivered slowly or not at all
        ops = [START, op("acks", kinds=pick(r, ["hold", "hold", "slow", "ok", "error", "nack"], r.randint(1, 8)))]
        for _ in range(r.randint(2, 6)):
            ops.append(r.choice([L("o", pick(r, kinds, r.randint(1, 4))), L("e", pick(r, kinds, r.randint(1, 4))),
                                 op("both", o=pick(r, kinds, 3), e=pick(r, kinds, 3)),
                                 op("sleep", ms=r.choice([5, 50, 300])), op("await", reason=ALERT, n=1, ms=400)]))
        ops += [op("release"), ending(r), JOIN]
        out.append((dict(rules=r.choice([1, 2, 2, 3]), nos=r.random() < .3, nof=r.random() < .3, files=r.choice([[], ["f"]])), ops))
    for _ in range(n // 8):
        out.append((dict(rules=r.choice([1, 2])), [START, op("acks", kinds=pick(r, ["hold", "slow", "ok"], 2)), L("o", pick(r, kinds, 2)), heir(r, kinds), ending(r), op("sleep", ms=300), op("release"), JOIN]))
    # many rules
    for rules in range(4, 15):
        for st in "oe":
            out.append((dict(rules=rules), [START, L(st, [r.choice(["spaces", "mrules", "m1"]), "text", "mrules", "mlast", "spaces"])] + r.choice([[], [op("settle"), L(st, ["mlast", "m12"])]]) + [ending(r), JOIN]))
    # equal lines
    for st in "oe":
        out.append((dict(rules=1, ho=0, he=0), [START, L(st, ["text", "mgiant", "text"]), op("settle"), L(st, ["m1"]), ending(r), JOIN]))
        out.append((dict(rules=1, ho=r.choice([3, 30])), [START, L(st, ["dup"] * 3 + ["text", "dup"]), op("settle"), L(st, ["dup"]), op("settle"), L(st, ["dup", "dup"]), ending(r), JOIN]))
        out.append((dict(rules=2), [START, op("acks", kinds=["hold", "slow"]), L(st, ["dup", "m2", "dup"]), L("e" if st == "o" else "o", ["m1"]), L(st, ["dup"] * 4), op("sleep", ms=200), op("release"), ending(r), JOIN]))
    # many at once, none delivered before the last one is there
    out.append((dict(rules=1, ho=0, he=0), [START, op("acks", kinds=[], always="hold"), op("both", o=["m1", "text"] * 90, e=["m1"] * 90), op("sleep", ms=300), op("release"), ending(r), JOIN]))
    for _ in range(n // 2):
        # delivered, then more
        ops = [START]
        for _ in range(r.randint(2, 4)):
            ops += [r.choice([L(r.choice("oe"), pick(r, kinds, r.randint(1, 3))), op("both", o=pick(r, kinds, 2), e=pick(r, kinds, 2))]), op("settle")]
        out.append((dict(rules=r.choice([1, 2, 3])), ops + [L("o", pick(r, kinds, 2)), op("settle"), op("quiet"), ending(r), JOIN]))
    for _ in range(n // 3):
        # one alert is held while later ones are delivered
        ops = [START, op("acks", kinds=["hold"]), L("o", ["m1"]), op("awaitreq", n=1), L("e", ["m2", "text"]), op("await", reason=ALERT, n=1),
               op("sleep", ms=100), L("o", pick(r, kinds, 3)), op("settle"), op("release"), op("settle")]
        ops += [L("o", pick(r, kinds, 2)), op("settle"), ending(r), JOIN]
        out.append((dict(rules=r.choice([2, 3])), ops))
    for _ in range(n // 3):
        do = [{"st": r.choice("oe"), "kinds": pick(r, kinds, r.choice([1, 4, 12])), "last": False} for _ in range(r.randint(1, 3))]
        out.append((dict(rules=r.choice([1, 2, 3])), [op("quick", do=do, how="exit", code=r.choice([0, 1])), JOIN]))
    for _ in range(n // 4):
        out.append((dict(rules=2), [START] + pile(r, kinds) + frozen(*(pile(r, kinds) + [ending(r), DEAD])) + [JOIN]))
        ops = [START, L("o", pick(r, kinds, 3)), sig("int")] + [L(r.choice("oe"), pick(r, kinds, 3)) for _ in range(2)]
        out.append((dict(rules=2, mode=["catch"]), ops + [ending(r), JOIN]))
    return out


def c09(r, n):
    out = []
    kinds = ["text", "m1", "m1", "m2", "mm", "m12"]
    # lines with several matches, so that the count jumps over the quantity
    for q in (2, 3, 4, 5):
        for k in range(q):
            for per in (0, 60000):
                out.append((dict(rules=2, qty=q, per=per), [START] + [x for _ in range(k) for x in (L(r.choice("oe"), [r.choice(["m1", "m2"])]), op("passed"))] +
                            [L("o", ["m12"] * ((q - k + 1) // 2)), op("settle"), op("quiet"), ending(r), JOIN]))
    for q in (1, 2, 3, 5):
        for k in sorted({0, 1, q - 1, q, q + 1, 2 * q, 2 * q + 1} - {-1}):
            ops = [START]
            for _ in range(k):
                ops += [L(r.choice("oe"), ["m1"]), op("passed")]
            out.append((dict(rules=1, qty=q), ops + [op("settle"), op("quiet"), ending(r), JOIN]))
            out.append((dict(rules=2, qty=q, per=60000), [START, L("o", ["m1"] * k), op("settle"), op("quiet"), ending(r), JOIN]))
    for q in (2, 3, 5):     # equal lines
        out.append((dict(rules=1, qty=q, per=r.choice([0, 60000])), [START, L("o", ["dup"] * (q - 1)), op("settle"), op("quiet"), L("o", ["dup"]), op("settle"), op("quiet"), L("o", ["dup"] * q), op("settle"), op("quiet"), ending(r), JOIN]))
    for q in (20, 101, 1100):
        out.append((dict(rules=1, qty=q, per=r.choice([0, 60000])), [START, L("o", ["m1"] * (q - 1)), op("settle"), op("quiet"), L("e", ["m1"]), op("settle"), op("quiet"), L("o", ["m1"] * q), op("settle"), op("quiet"), END0, JOIN]))
    for q in (1, 2, 3, 5):
        # counting starts again
        ops = [START]
        for _ in range(3):
            ops += [L("o", ["m1"] * q), op("settle"), op("quiet")]
            if q > 1:
                ops += [L("e", ["m1"] * (q - 1)), op("settle"), op("quiet"), L("e", ["m2"]), op("settle"), op("quiet")]
        out.append((dict(rules=2, qty=q), ops + [ending(r), JOIN]))
    # a period that passes: slack must be well below it
    for q in (2, 3):
        for per, gap in ((400, 700), (3000, 100), (700, 1000)):
            ops = [START]
            for i in range(4):
                ops += [L("o", ["m1"]), op("sleep", ms=gap)]
            out.append((dict(rules=1, qty=q, per=per, slack=600), ops + [op("settle"), op("quiet"), ending(r), JOIN]))
        # q matches, not enough of them recent
        out.append((dict(rules=1, qty=q, per=500, slack=200), [START, L("o", ["m1"] * (q - 1)), op("sleep", ms=900), L("o", ["m1"]), op("settle"), op("quiet"),
                                                               L("o", ["m1"] * q), op("settle"), op("quiet"), END0, JOIN]))
    for per, gap in ((1000, 1300), (2000, 2400), (3000, 3300), (1000, 1450), (500, 900), (1900, 2200)):
        for q in (2, 3):
            out.append((dict(rules=1, qty=q, per=per, slack=150), [START] + [x for i in range(4) for x in (L("oe"[i % 2], ["m1"]), op("sleep", ms=gap))] + [op("settle"), op("quiet"), ending(r), JOIN]))
    for _ in range(n):
        q = r.choice([1, 2, 2, 3, 4, 7])
        c = dict(rules=r.choice([1, 2]), qty=q, per=r.choice([0, 0, 0, 5000, 60000]), nos=r.random() < .2, slack=1500)
        ops = [START]
        if r.random() < .5:
            ops.append(op("acks", kinds=pick(r, ["hold", "slow", "ok", "error", "nack"], r.randint(1, 4))))
        for _ in range(r.randint(2, 6)):
            ops.append(r.choice([L("o", pick(r, kinds, r.randint(1, 4))), L("e", pick(r, kinds, r.randint(1, 3))),
                                 op("both", o=pick(r, kinds, 3), e=pick(r, kinds, 3)), op("sleep", ms=r.choice([5, 100])), op("release"), op("settle")]))
        out.append((c, ops + [op("release"), op("settle"), op("quiet"), ending(r), JOIN]))
    return out


def c11(r, n):
    out = []
    names = ["a", "ab", "a b", "sub/a", "sub/deep/x.txt", "ü.log", "A", "b.tar.gz", "-dash", "%s", "$HOME", "a$PATH.x", "~", "*.log", "a?", "[ab]", "ab ", " a", "%20", "a\\b", "..a", "a\tb", "a,b", "a:b", "'a'", "{a}", "#a"]
    ages = [0, 0, 0, 2, 3700, 10 ** 6, 10 ** 9, -2, -3700, -10 ** 8]
    for k in (1, 2, 3):
        for made in itertools.product([False, True], repeat=k):
            for end in (END0, op("end", how="exit", code=2)):
                fs = r.sample(names, k)
                ops = [START] + [op("file", i=i + 1, size=r.choice([0, 1, 77, 5000])) for i in range(k) if made[i]]
                out.append((dict(files=fs), ops + [end, JOIN]))
    # what is there is not the file, or not a plain one
    for kind in ("dangling", "loop", "below", "similar"):
        for end in (END0, op("end", how="exit", code=2)):
            out.append((dict(files=["d/f"]), [START, op("nofile", i=1, kind=kind), end, JOIN]))
            out.append((dict(files=["d/f", "g"]), [START, op("file", i=2, size=7), op("nofile", i=1, kind=kind), end, JOIN]))
    for kind in ("link", "dir"):
        for end in (END0, op("end", how="exit", code=2)):
            for size in (0, 1, 9999):
                out.append((dict(files=["x", "d/f"]), [START, op("file", i=2, size=size, kind=kind), end, JOIN]))
                out.append((dict(files=["x", "d/f"]), [START, op("file", i=2, size=size, kind=kind), op("file", i=1, size=5), end, JOIN]))
    for age in ages[3:]:
        for i in (0, 1):
            o = op("file", i=1, size=r.choice([0, 40]), age=age, kind=r.choice(["plain", "link", "dir"]))
            out.append((dict(files=r.sample(names, r.choice([1, 2]))), r.choice([[START, o], [o, START]]) + [ending(r), JOIN]))
    for i in range(0, len(names), 4):
        fs = names[i:i + 4]
        out.append((dict(files=fs), [START] + [op("file", i=j + 1, size=j + 1) for j in range(len(fs))] + [END0, JOIN]))
        out.append((dict(files=fs), [START] + [op("file", i=j + 1, size=j + 1) for j in range(len(fs)) if r.random() < .5] + [ending(r), JOIN]))
    for gb in (1, 2, 3, 4, 5, 70, 1025):
        out.append((dict(files=["x", "d/f"]), [START, op("file", i=2, size=gb, kind="big"), op("file", i=1, size=gb)] + [ending(r), JOIN]))
    many = ["file%d" % i for i in range(40)]
    for missing in ([], [7], [0, 39], list(range(40))):
        out.append((dict(files=many), [START] + [op("file", i=i + 1, size=i) for i in range(40) if i not in missing] + [ending(r), JOIN]))
    for _ in range(n // 4):
        # files that come, change and go
        fs = r.sample(names, r.choice([1, 2, 3]))
        ops, there = [START], set()
        for _ in range(r.randint(2, 7)):
            i = r.randint(1, len(fs))
            if i in there and r.random() < .5:
                ops.append(op("unfile", i=i))
                there.discard(i)
            else:
                ops.append(op("file", i=i, size=r.choice([0, 1, 300, 70000]), age=r.choice(ages), kind=r.choice(["plain", "link", "dir"])))
                there.add(i)
        if r.random() < .3:
            k = r.randint(1, len(ops))
            ops[k:k] = [op("sleep", ms=100), L("o", ["text"])]
        out.append((dict(files=fs), ops + [ending(r), JOIN]))
    for _ in range(n):
        k = r.choice([0, 1, 2, 4, 7])
        fs = r.sample(names, k)
        c = dict(files=fs, nos=r.random() < .2, nof=r.random() < .2, rules=r.choice([0, 1]))
        idx = [i + 1 for i in range(k) if r.random() < .6]
        r.shuffle(idx)
        pre = [op("file", i=i, size=r.choice([0, 1, 77, 100000]), age=r.choice(ages)) for i in idx if r.random() < .3]
        ops = pre + [START] + [op("file", i=i, size=r.choice([0, 1, 77, 100000]), age=r.choice(ages)) for i in idx if not any(p["i"] == i for p in pre)]
        if r.random() < .3:
            ops.append(op("acks", kinds=pick(r, ["error", "nack", "hold", "slow"], 3)))
        if r.random() < .3:
            ops += [L("o", ["m1", "text"])]
        ops += [ending(r), op("sleep", ms=r.choice([50, 300])), op("release"), JOIN]
        out.append((c, ops))
    for _ in range(n // 4):
        fs = r.sample(names, r.choice([1, 2, 3]))
        ops = [op("file", i=i + 1, size=3) for i in range(len(fs)) if r.random() < .5]
        out.append((dict(files=fs), ops + [op("quick", do=[], how="exit", code=r.choice([0, 1])), JOIN]))
    for _ in range(n // 8):
        # warnings and killed runs
        out.append((dict(files=["a", "b"], tw=100), [START, op("file", i=1, size=5), op("sleep", ms=400), ending(r), JOIN]))
        out.append((dict(files=["a"], tk=500), [START, op("awaitgone", ms=9500), JOIN]))
    return out


def c14(r, n):
    out = []
    for s in ("int", "term"):
        for d in (0, 150):
            out.append((dict(), [START, op("sleep", ms=d), sig(s, False), JOIN]))
            out.append((dict(rules=1), [START, L("o", ["m1", "text"]), op("sleep", ms=d), sig(s, False), JOIN]))
            out.append((dict(mode=["stdin"]), [START, op("feed", n=100), op("sleep", ms=d), sig(s, False), JOIN]))
            out.append((dict(files=["f"], nos=True, nof=True), [START, op("sleep", ms=d), sig(s, False), JOIN]))
        out.append((dict(), [START, op("acks", kinds=[], always="hold"), sig(s, False), op("awaitreq", n=1), op("sleep", ms=1000), op("release"), JOIN]))
        out.append((dict(), [START, op("down"), sig(s, False), op("sleep", ms=1500), op("up"), JOIN]))
        for code in (0, 1, 130):
            out.append((dict(mode=["catch"]), [START, sig(s), op("end", how="exit", code=code), JOIN]))
            out.append((dict(mode=["catch"]), [START, sig(s), L("o", ["text"] * 50), op("sleep", ms=1200), op("alive"), op("end", how="exit", code=code), JOIN]))
        # it ends about when the signal arrives
        for _ in range(max(1, n // 4)):
            out.append((dict(), [START] + frozen(ending(r), DEAD, sig(s, False)) + [JOIN]))
            out.append((dict(mode=["catch"], rules=1), [START] + frozen(sig(s, False), *pile(r, ["m1", "text"])) + [L("o", ["text"]), ending(r), JOIN]))
        # limits after the signal
        out.append((dict(mode=["catch"], tk=1500), [START, sig(s), op("awaitgone", ms=12000), JOIN]))
        out.append((dict(mode=["catch"], tw=700), [START, sig(s), op("sleep", ms=1200), op("alive"), END0, JOIN]))
        out.append((dict(mode=["catch"], mk=150000), [START, sig(s), op("mem", mb=200), op("awaitgone", ms=12000), JOIN]))
    out.append((dict(mode=["catch"]), [START] + [sig(r.choice(["int", "term"])) for _ in range(40)] + [op("alive"), ending(r), JOIN]))
    for _ in range(n // 6):
        out.append((dict(rules=r.choice([0, 1])), [START, heir(r, TEXT + ["m1"]), sig(r.choice(["int", "term"]), False), JOIN]))
        out.append((dict(mode=["catch"], tk=r.choice([0, 3000])), [START, sig(r.choice(["int", "term"])), heir(r, TEXT), ending(r), JOIN]))
    for seq in itertools.product(["int", "term"], repeat=3):
        for k in (2, 3):
            ops = [START]
            for s in seq[:k]:
                ops += [sig(s)] + r.choice([[], [op("sleep", ms=r.choice([20, 200]))], [op("alive")], [L("o", ["text"])]])
            out.append((dict(mode=["catch"]), ops + [ending(r), JOIN]))
    for _ in range(n):
        c = dict(mode=["catch"] + r.choice([[], ["stdin"]]), rules=r.choice([0, 1, 2]), tw=r.choice([0, 0, 150]), files=r.choice([[], ["f"]]), nos=r.random() < .3, nof=r.random() < .3,
                 daemon=r.random() < .2)
        ops = [START] + output(r, TEXT + ["m1"], r.randint(0, 2))
        if r.random() < .4:
            ops.append(op("acks", kinds=pick(r, ["error", "nack", "hold", "slow"], 3)))
        for _ in range(r.randint(1, 4)):
            ops += [sig(r.choice(["int", "term"]))] + r.choice([[], output(r, TEXT + ["m1"], 1), [op("sleep", ms=100)]])
        out.append((c, ops + [ending(r), op("sleep", ms=r.choice([100, 900])), op("release"), JOIN]))
    return out


IDS = ["verif", "someone@example.org", "a", "ü ñ 世界", "with space", "%s%d", "bad\\xff\\xfebytes", "x" * 300, "\\ttab", "quote'\\x22", "null", "0", "-1", "1e3", "true"]
HOSTS = ["a", "web-1.prod.example.org", "UPPER.Example.ORG", "under_score", "10", "x" * 64, "bad\\xffname", "localhost", "-"]
WORDS = [[], ["--flag", "value"], ["two words", ""], ["-i", "other"], ["$HOME", "*", "`x`"], ["\\xff\\xc3", "ü"], ["--", "x"], ["a\\nb"], ["x" * 2000], ["%d", "%"], ["w%d" % i for i in range(15)], ["w%d" % i for i in range(17)], ["v"] * 70, ["", "", "a"], [" a", "b ", "\\t"]]


def c15(r, n):
    out = []
    for i in IDS:
        out.append((dict(id=i, words=r.choice(WORDS)), [START, ending(r), JOIN]))
    for h in HOSTS:
        out.append((dict(host=h, rules=r.choice([0, 1])), [START, L("o", ["m1"]), ending(r), JOIN]))
    out.append((dict(host=r.choice(HOSTS)), [op("quick", do=[], how="exit", code=0), JOIN]))
    for w in WORDS:
        out.append((dict(id=r.choice(IDS), words=w, rules=1), [START, L("o", ["m1"]), ending(r), JOIN]))
        out.append((dict(words=w), [op("quick", do=[], how="exit", code=r.choice([0, 1])), JOIN]))
    # the configuration as it was given
    for kw in (dict(ho=0), dict(he=7), dict(rules=3), dict(tw=90 * MIN), dict(tk=100 * MIN), dict(mw=123456789), dict(mk=99999999), dict(daemon=True), dict(files=["a", "b c", "ü"]),
               dict(nof=True), dict(ho=100, he=1, rules=2, tw=5 * MIN, tk=6 * MIN, mw=50000000, mk=60000000, files=["x"], daemon=True)):
        for end in (END0, op("end", how="exit", code=3)):
            out.append((kw, [START, L("o", ["m1"]), end, JOIN]))
    # created when triggered, whenever it is delivered
    late = [op("sleep", ms=11500), op("up"), JOIN]
    out.append((dict(), [START, op("sleep", ms=1200), op("down"), END0] + late))
    out.append((dict(), [START, op("down"), op("end", how="exit", code=1)] + late))
    out.append((dict(files=["x"]), [op("down"), START, END0] + late))
    out.append((dict(tw=500), [START, op("down"), op("sleep", ms=11500), op("up"), op("sleep", ms=1000), END0, JOIN]))
    out.append((dict(mode=["catch"]), [START, op("sleep", ms=1200), op("down"), sig("term"), op("sleep", ms=11500), op("up"), END0, JOIN]))
    out.append((dict(tk=1500), [START, op("down"), op("awaitgone", ms=9600)] + late))
    # alerts sent while the expected files are looked at
    for i in range(n // 2):
        fs = ["f%d" % j for j in range(r.choice([2, 5, 8, 30]))]
        gone = {len(fs) - 1, r.randrange(len(fs))} if i % 4 else set()
        out.append((dict(files=fs, rules=1, bin="instr", nos=r.random() < .2), [op("file", i=j + 1, size=j) for j in range(len(fs)) if j not in gone] +
                    [START] + frozen(*(L(r.choice("oe"), ["m1"]) for _ in range(r.choice([1, 3, 8]))), END0, DEAD) + [JOIN]))
    # long runs
    for speed in (30, 300):
        k = dict(speed=speed, tw=r.choice([0, MIN]))
        out.append((dict(k, rules=1), [START, L("o", ["m1"]), op("sleep", ms=2500), L("e", ["m1"]), op("sleep", ms=2000), ending(r), JOIN]))
        out.append((dict(k, mode=["catch"]), [START, op("sleep", ms=2500), sig("int"), op("sleep", ms=2000), L("o", ["text"]), ending(r), JOIN]))
        out.append((dict(k, tk=10 * MIN), [START, op("awaitgone", ms=10 * MIN // speed + 9000), JOIN]))
    # memory
    for mb in (60, 200):
        for kw in (dict(), dict(mw=50000), dict(mw=50000, mk=150000), dict(mk=150000), dict(rules=1, tw=500)):
            end = [op("awaitgone", ms=10000)] if mb == 200 and kw.get("mk") else [op("sleep", ms=3500), ending(r)]
            out.append((kw, [START, L("o", ["m1"]), op("mem", mb=mb)] + end + [JOIN]))
    # what happens after a signal, a warning or a missing file
    for how in ("int", "term"):
        out.append((dict(mode=["catch"], rules=1), [START, L("o", ["m1"]), sig(how), op("sleep", ms=2300), L("o", ["m1"]), op("sleep", ms=1300), L("e", ["m1", "text"]), op("sleep", ms=300), ending(r), JOIN]))
    out.append((dict(mode=["catch"], tw=2500, files=["x"]), [START, sig("int"), op("sleep", ms=4000), END0, JOIN]))
    out.append((dict(rules=1, tw=1000), [START, L("o", ["m1"]), op("sleep", ms=2300), L("o", ["m1"]), op("sleep", ms=1300), op("mem", mb=60), L("e", ["m1", "text"]), op("sleep", ms=300), ending(r), JOIN]))
    # the most it ever used, not what it uses now
    out.append((dict(rules=1), [START, op("mem", mb=200), op("sleep", ms=3500), op("mem", mb=20), op("sleep", ms=2500), L("o", ["m1"]), ending(r), JOIN]))
    out.append((dict(mw=100000), [START, op("mem", mb=150), op("sleep", ms=3500), op("mem", mb=20), op("sleep", ms=2500), ending(r), JOIN]))
    out.append((dict(mode=["catch"]), [START, op("mem", mb=200), op("sleep", ms=3500), op("mem", mb=60), op("sleep", ms=1500), sig("int"), ending(r), JOIN]))
    out.append((dict(), [START, op("mem", mb=30), op("sleep", ms=1500), op("mem", mb=250), op("sleep", ms=3500), op("mem", mb=90), op("sleep", ms=1500), ending(r), JOIN]))
    for _ in range(n):
        c = dict(id=r.choice(IDS), words=r.choice(WORDS), rules=r.choice([0, 1, 2]), tw=r.choice([0, 0, 100]), files=r.choice([[], ["f"], ["f", "g"]]), nos=r.random() < .2, nof=r.random() < .2,
                 ho=r.choice([0, 3, 30]), daemon=r.random() < .2, mode=r.choice([[], ["catch"]]))
        ops = [START] + ([op("acks", kinds=pick(r, ["error", "nack", "slow", "drop", "ok"], 3))] if r.random() < .5 else [])
        ops += output(r, TEXT + ["m1"], r.randint(0, 2), 5) + [op("sleep", ms=r.choice([0, 150, 1100, 2300]))]
        for i in range(len(c["files"])):
            if r.random() < .5:
                ops.append(op("file", i=i + 1, size=10))
        if c["mode"] and r.random() < .5:
            ops += [sig(r.choice(["int", "term"]))] + r.choice([[], [op("sleep", ms=1100)], output(r, TEXT + ["m1"], 1, 5)])
        out.append((c, ops + [ending(r), JOIN]))
    for _ in range(n // 5):
        out.append((dict(tw=50, rules=1, id=r.choice(IDS)), [START] + frozen(*(pile(r, TEXT + ["m1"]) + [op("sleep", ms=r.choice([60, 1100])), ending(r), DEAD])) + [JOIN]))
    return out


def c16(r, n):
    out = []
    own = dict(id="owner-7f3a@example.org", words=["word-9c1e"], files=["file-5d2b"], rules=1)
    secret = ["secret", "text"]
    for errs in ("ok", "fail", "hang", "refuse"):
        for noerr in (True, False):
            k = dict(own, errs=errs, noerr=noerr)
            told = [op("awaiterr")] if errs in ("ok", "fail") and not noerr else []     # what went wrong is reported
            # its input breaks
            out.append((dict(k, mode=["closein"]), [START, op("feed", n=5000), op("sleep", ms=200), L("o", secret), L("e", secret), op("feed", n=10), op("sleep", ms=700), L("o", secret), op("alive")] + told + [ending(r), JOIN]))
            # its output can not be passed on
            for full in (["o"], ["e"], ["o", "e"]):
                out.append((dict(k, full=full), [START] + [x for _ in range(4) for x in (L("o", secret * 2), L("e", secret), op("sleep", ms=80))] + [op("sleep", ms=300)] + told + [ending(r), JOIN]))
            # nothing is delivered for an hour
            for kw, mid, end in ((dict(), [L("o", secret)], END0), (dict(nos=True, nof=True), [L("e", secret), L("o", secret)], END0), (dict(mode=["catch"]), [sig("int"), L("o", ["secret"])], ending(r))):
                for how in ([op("acks", kinds=[], always="hold")], [op("down")], [op("acks", kinds=[], always="error")]):
                    out.append((dict(k, speed=3000, lose=True, **kw), [START] + how + mid + [op("sleep", ms=2600), L("o", secret), op("alive")] + (told if not kw.get("nos") else []) + [end, op("sleep", ms=2600), op("up"), op("release"), JOIN]))
            # trouble with the collector
            for kind in ("error", "nack", "drop", "slow"):
                out.append((k, [START, op("acks", kinds=[kind] * 2), L("o", secret), op("sleep", ms=200), L("e", secret), ending(r), JOIN]))
            for _ in range(n // 8):
                out.append((dict(k, mode=r.choice([["closein"], ["stdin"]]), full=r.choice([[], ["o"], ["e"]]), tw=r.choice([0, 100])),
                            [START, op("feed", n=r.choice([10, 5000]))] + [L(r.choice("oe"), pick(r, secret, 3), async_=r.random() < .4) for _ in range(r.randint(1, 4))] +
                            r.choice([[], [op("feed", n=100)], [op("sleep", ms=300)]]) + [ending(r), JOIN]))
    # no error reports from runs in which nothing goes wrong
    for i in range(12 if n <= 16 else 60):
        kw = dict(own, errs=["ok", "fail", "hang", "refuse"][i % 4], noerr=False, calm=True, tw=r.choice([0, 100]), mw=r.choice([0, 1000]), mode=r.choice([[], ["catch"], []]),
                  ho=r.choice([0, 3, 30]), nos=r.random() < .2, nof=r.random() < .2)
        ops = [START] + ([op("acks", kinds=pick(r, ["error", "nack", "slow", "drop", "ok"], 3))] if r.random() < .5 else []) + output(r, TEXT + ["m1", "long", "huge"], r.randint(1, 4), 30)
        if i % 3 == 0:
            ops += [L("o", pick(r, TEXT, 150)), L("e", pick(r, TEXT, 150))]
        if r.random() < .4:
            ops.append(op("file", i=1, size=10))
        out.append((kw, ops + ([sig(r.choice(["int", "term"]))] if kw["mode"] else []) + [op("sleep", ms=r.choice([0, 300, 1300])), ending(r), JOIN]))
    for kw, _ in out:
        kw["env"] = r.choice(["", "environment=development"])
    return out


SCRIPTS = {"C15": c15, "C16": c16, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C11": c11, "C14": c14}
COUNT = {"C15": 40, "C16": 16, "C01": 60, "C02": 60, "C03": 50, "C04": 40, "C05": 40, "C06": 40, "C07": 30, "C08": 45, "C09": 45, "C11": 60, "C14": 40}


def binaries(pid):
    """the monny binaries: as it is, with schedule perturbation, and with the options for the alert rate"""
    d = scratch("monny")
    files = ["pkg/monny/command.go", "pkg/monny/handlers.go", "pkg/monny/report.go"]
    main = {os.path.join(REPO, "cmd/verifmain/main.go"): os.path.join(HARNESS, "supmain", "main.go")}
    inst = instrument(files, skip=["checkRule", "extractTextFromJSON", "marshalMatches", "allToUTF8"])
    want = {"rate": (main, "./cmd/verifmain"), "rateinstr": (dict(main, **inst), "./cmd/verifmain")} if pid == "C09" else \
           {"plain": ({}, "./cmd/monny"), "instr": (inst, "./cmd/monny")}
    if pid in ("C01", "C04", "C05", "C06", "C07", "C15", "C18"):
        want["fast"] = (fasttime(), "./cmd/monny")
    if pid == "C16":
        want = {"plain": ({}, "./cmd/monny"), "errs": (main, "./cmd/verifmain"), "errinstr": (dict(main, **inst), "./cmd/verifmain"), "errfast": (dict(main, **fasttime()), "./cmd/verifmain")}
    out = {}

    def build(name):
        rep, pkg = want[name]
        b = os.path.join(d, name)
        dd = scratch("build." + name)
        rc, o = gobuild(["build", "-overlay", overlay(rep, dd), "-o", b, pkg], dd)
        if rc != 0 and "instr" in name:
            log("instrumented build failed, building as is:", o[-500:])
            rc, o = gobuild(["build", "-overlay", overlay(main if pkg == "./cmd/verifmain" else {}, dd), "-o", b, pkg], dd)
        if rc != 0:
            raise Broken("monny does not build:\n" + o[-3000:])
        out[name] = b
    parallel([lambda n=n: build(n) for n in want])
    return out


MODELS = {"C01": "output signals", "C02": "output alerts2 sigout", "C03": "verdict limits", "C04": "live verdict", "C05": "alerts verdict", "C06": "limits memory", "C07": "limits memory",
          "C08": "alerts alerts2", "C09": "rate", "C11": "verdict files alertfile", "C14": "signals live",
          "C15": "memory limits verdict alertfile", "C16": "alerts output verdict"}
MISTAKES = {"C01": "no drain", "C02": "no drain", "C03": "success anyway", "C04": "no wait", "C05": "fresh retry|give up", "C06": "early", "C07": "no wait", "C08": "clear all",
            "C09": "no wait", "C11": "success anyway", "C14": "give up", "C15": "late stamp|memory now|success early", "C16": "report everything"}


def models(c, pid):
    """the design model satisfies the observer (and a planted design mistake does not)"""
    def run(v, large):
        live = v == "live"
        cfg = cfgtext("LiveSpec" if live else "Spec", {"Asp": pid, "Variant": v, "Large": large, "MaxT": 3, "MaxFail": 1, "Broken": ""}, invs=["Observed"],
                      props=["Ends"] if live else [])
        c.model("MCSup", cfg, workers=8, timeout=2400, heap="12g" if large else "4g")
    vs = MODELS[pid].split()
    if THOROUGH:
        vs = vs + [v for v in ("output", "alerts", "alerts2", "rate", "verdict", "files", "alertfile", "limits", "memory", "signals", "sigout", "live") if v not in vs]
    for v in vs:
        run(v, False)
    # a mistake must be seen by at least one of the variants of this property
    for b in MISTAKES[pid].split("|"):
        seen = False
        for v in (MODELS[pid].split() if b != "no drain" or pid != "C01" else ["alerts"]):
            cfg = cfgtext("Spec", {"Asp": pid, "Variant": v, "Large": False, "MaxT": 3, "MaxFail": 1, "Broken": b}, invs=["Observed"])
            if tlc("MCSup", cfg, workers=8, timeout=600, heap="4g").rc == 12:
                seen = True
                break
        if not seen:
            raise Broken("the observer of %s does not notice the design mistake '%s'" % (pid, b))
    if THOROUGH:
        for v in MODELS[pid].split():
            run(v, True)


def check(pid):
    c = Check(pid)
    r = c.rng
    models(c, pid)
    scripts = []
    n = COUNT[pid] * (8 if THOROUGH else 1)
    for i, (kw, ops) in enumerate(SCRIPTS[pid](r, n)):
        scripts.append({"id": "%s-%d" % (pid.lower(), i), "cfg": cfg_of(pid, r, **kw), "ops": ops})
    r.shuffle(scripts)
    res = {}

    def b():
        res["bins"] = binaries(pid)

    def drv():
        res["drv"] = build_test_driver("sup")
    parallel([b, drv])
    log("%d scripts" % len(scripts))
    traces = run_test_driver(res["drv"], scripts, par=12, procs=2, timeout=800 if not THOROUGH else 3000,
                             env={"VERIF_BINS": json.dumps(res["bins"]), "VERIF_WATCH": "150s", "VERIF_YSLEEP": "2000"})
    log("ran")
    traces = [t for t in traces if t["ev"]]
    st = c.validate("TraceSup", traces, {"TInit": "<- SupInit", "TStep": "<- SupStep", "TSilent": "<- NoSilent"})
    c.stuck("monny", st, scripts)
    return c.finish()
