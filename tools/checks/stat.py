"""C50, C51, C52: pkg/stat against spec/Stat.tla."""
from vlib import *

NOTE = ("TLC explores the life cycle for all short observation sequences and manual transitions; long seeded runs of the real statistics "
        "and tests (fake clock for sample windows) are validated by TLC. Values and limits are compared in thousandths within a small "
        "tolerance; 'reaches the limit' is decided in exact rational arithmetic for whole observations and lambda 1, and is left open "
        "only within the tolerance otherwise.")

TOS = ["reset", "ucl_initial", "testing_ucl", "ucl_trip", "lcl_initial", "testing_lcl", "lcl_trip"]


def stat(r, kind, name, mode, exact=None):
    exact = r.random() < .5 if exact is None else exact
    exact = exact and mode == kind
    if exact:
        ln, ld, cap, k = 1, 1, r.choice([1, 2, 2, 4, 4, 8] if kind == "p" else [2, 2, 4, 8]), r.choice([1, 1, 2, 3]) * 1000
    else:
        ln, ld = r.choice([(1, 4), (2, 5), (1, 2), (1, 5), (2, 3), (1, 1), (3, 4), (199, 200), (19, 20), (1, 20)])
        cap, k = r.choice([2, 3, 4, 5, 7, 10]), r.choice([500, 1000, 1500, 2000, 3000, 4200, 0])
    win = 0 if kind == "ln" or exact or r.random() < .6 else r.choice([1, 2, 5])
    return {"name": name, "kind": kind, "ln": ln, "ld": ld, "cap": cap, "win": win, "k": k, "exact": exact,
            "slack": 30 if mode != kind else 0}


def history(r, stats, mode, n, mx):
    """Observations around a level that sometimes jumps, with manual transitions, invalid values and passing time."""
    ops = []
    lo, hi = (-5, 5) if mode == "ln" else (0, 40)
    level = r.randint(lo, hi if mode == "ln" else 12)
    win = max(s["win"] for s in stats)
    jump = .12
    for _ in range(n):
        x = r.random()
        if x < jump:
            level = r.randint(lo, hi)
        y = r.random()
        if y < .80:
            v = level + r.choice([0, 0, 0, 1, -1, 1, 2, -2, 4])
            ops.append({"op": "rec", "v": max(lo - 1 if mode == "ln" else 0, min(hi + 1, v)), "bad": ""})
        elif y < .85:
            ops.append({"op": "rec", "v": r.randint(0, 5), "bad": r.choice(["nan", "inf", "ninf"] + (["zero", "neg"] if mode == "ln" or all(s["kind"] == "p" for s in stats) else []))})
        elif y < .95:
            ops.append({"op": "tr", "to": r.choice(TOS + ["lcl_initial", "reset", "reset"]), "reset": r.random() < .5})
        else:
            ops.append({"op": r.choice(["metric", "name"])})
        if win and r.random() < .35:
            ops.append({"op": "pass", "n": r.choice([1, win, win, 2 * win])})
    return ops


def directed(r, stats, mode):
    """A run through the whole life cycle: baseline, alarm, lower limit, alarm, reset, again."""
    cap, win = max(s["cap"] for s in stats), max(s["win"] for s in stats)
    up, down = (5, -5) if mode == "ln" else (60, 0)
    mid = 0 if mode == "ln" else r.choice([4, 9, 5, 12])
    ops = []

    def rec(v, n=1):
        for _ in range(n):
            ops.append({"op": "rec", "v": v, "bad": ""})
            if win:
                ops.append({"op": "pass", "n": r.choice([1, win, win])})
    for rounds in range(r.randint(1, 2)):
        for i in range(cap + r.randint(0, 3)):
            rec(mid + r.choice([0, 1, -1, 2, -2, 0]))
        for v in range(mid, up, r.choice([1, 1, 2, 3])):
            rec(v)
            if r.random() < .1:
                ops.append({"op": "tr", "to": r.choice(TOS), "reset": r.random() < .5})
        rec(mid, r.randint(0, 3))                     # an alarm lasts
        ops.append({"op": "tr", "to": "lcl_initial", "reset": r.random() < .5})
        for i in range(cap + r.randint(0, 2)):
            rec(up + r.choice([0, -1, -2, 1]))
        for v in range(up, down - 1, -r.choice([1, 1, 2, 3])):
            rec(v)
        rec(up, r.randint(0, 2))
        ops.append({"op": "metric"})
        ops.append({"op": "tr", "to": "reset", "reset": r.random() < .5})
        if r.random() < .5:
            ops.append({"op": "rec", "v": 1, "bad": "nan"})
    return ops


def defaults(r, kind):
    """The default tests, with their baseline of 50 observations or of 50 windows of 15 seconds."""
    stats = [{"name": n, "kind": kind, "ln": a, "ld": b, "cap": 50, "win": 15 if kind == "p" else 0, "k": 0, "exact": False, "slack": 0}
             for n, a, b in (("ewma", 1, 4), ("shewart", 1, 1))]
    ops = []
    for phase in range(2):
        for i in range(50 + (phase == 0) * r.randint(0, 4)):
            ops.append({"op": "rec", "v": r.choice([-1, 0, 1, 2]) if kind == "ln" else r.choice([2, 3, 4]), "bad": ""})
            if kind == "p":
                ops.append({"op": "pass", "n": 15})
        ops.append({"op": "rec", "v": 1 if kind == "ln" else 3, "bad": ""})
        rise = range(0, 6) if kind == "ln" else range(0, 40, 4)
        for v in rise:
            ops.append({"op": "rec", "v": v, "bad": ""})
        ops.append({"op": "metric"})
        ops.append({"op": "tr", "to": "lcl_initial" if phase == 0 and r.random() < .5 else "reset", "reset": True})
    return stats, ops


def rates(c):
    """C53: the factor k"""
    r = c.rng
    base = {"As": set(range(1, 10)) if THOROUGH else {1, 2, 5, 7}, "Es": "<- EsLarge" if THOROUGH else "<- EsQuick", "Gen": False}
    c.model("MCRate", cfgtext(consts=base, invs=["Falls", "FallsStrictly", "Linear", "Apart", "Positive", "Calibrated"]), workers=8)
    g = c.model("MCRate", cfgtext(consts=dict(base, Gen=True, As=set(range(1, 10)), Es="<- EsAll"), constraint="Emit"), workers=1)
    grid = scripts_of(g.out)
    c.notes["scripts_from_specification"] = len(grid)
    ops = [o for s in grid for o in s["ops"]]
    r.shuffle(ops)
    # the rates people use, and k at the points of the calibration, in every script
    common = [{"op": "k", "r": {"kind": "rate", "a": a, "b": 1, "e": e}, "dist": d} for a in (1, 5) for e in (-1, -2, -3, -4, -6) for d in ("ln", "p")]
    refused = [{"kind": k, "a": a, "b": 1, "e": e} for k, a, e in (("zero", 1, 0), ("negzero", 1, 0), ("nan", 1, 0), ("inf", 1, 0), ("ninf", 1, 0), ("neg", 1, 0), ("neg", 5, -2), ("neg", 1, -300), ("neg", 9, 300))]
    scripts = []
    for i in range(0, len(ops), 40):
        part = ops[i:i + 40] + common
        part += [dict(o, op="limit", low=r.random() < .5) for o in r.sample(ops[i:i + 40], min(6, len(ops[i:i + 40])))]
        part += [{"op": o, "r": x, "dist": d, "low": r.random() < .5} for x in r.sample(refused, 3) for o in ("k", "limit") for d in ("ln", "p")]
        part += [{"op": o, "r": {"kind": "fixed", "k": r.choice([0, 1, 500, 1000, 3000, 4500, 5700, 6500, 12345, -2000])}, "dist": d, "low": r.random() < .5} for o in ("k", "limit") for d in ("ln", "p")]
        r.shuffle(part)
        scripts.append({"id": "k%d" % i, "cfg": {"comp": "rate"}, "ops": part})
    return scripts


def rng(c):
    """C54: random numbers"""
    r = c.rng
    n = 4 if THOROUGH else 3
    c.model("MCRng", cfgtext(consts={"Max": n, "Mistake": ""}, invs=["Support", "Longest"]), workers=4)
    c.mistakes("MCRng", lambda m: cfgtext(consts={"Max": n, "Mistake": m}, invs=["Support", "Longest"]), ["test first", "one more"])
    scripts = []
    for i in range(120 if THOROUGH else 24):
        gens = []
        for _ in range(r.choice([1, 1, 2, 3])):
            lam, den = r.choice([(0, 1), (1, 1), (2, 1), (20, 1), (37, 1), (100, 1), (400, 1), (1, 10), (5, 10), (21, 10), (29, 10), (29, 10), (125, 10), (199, 10)])
            gens.append({"kind": "p", "lam": lam, "den": den, "m": 0, "s": 0} if r.random() < .6 else
                        {"kind": "ln", "m": r.choice([0, 500, -300, 100, 37]), "s": r.choice([0, 20, 50, 100, 100, 200]), "lam": 0, "den": 1})
        if i < 9:
            gens[0] = {"kind": "p", "lam": [0, 1, 2, 5, 20, 37, 100, 400, 3][i], "den": 1, "m": 0, "s": 0}
        if i % 3 == 0:      # generators that are nearly the same
            gens = [dict(gens[0], lam=gens[0]["lam"] + d, den=10) if gens[0]["kind"] == "p" and gens[0]["lam"] < 200 else dict(gens[0], m=gens[0]["m"] + d) for d in (0, r.choice([1, 7, 9, 90]))]
        ops = [{"op": "draw", "g": k + 1} for k in range(len(gens)) for _ in range(600)]
        if r.random() < .7:
            r.shuffle(ops)
        scripts.append({"id": "rng%d" % i, "cfg": {"comp": "rng", "gens": gens}, "ops": ops + [{"op": "end"}]})
    return scripts


def check(pid):
    c = Check(pid)
    r = c.rng
    if pid == "C54":
        scripts = rng(c)
        traces = run_test_driver(build_test_driver("stat"), scripts, procs=4)
        c.stuck("rng", c.validate("TraceRng", traces, {"TInit": "<- RngInit", "TStep": "<- RngStep", "TSilent": "<- NoSilent"}), scripts)
        return c.finish()
    if pid == "C53":
        scripts = rates(c)
        traces = run_test_driver(build_test_driver("stat"), scripts, procs=4)
        c.stuck("rate", c.validate("TraceRate", traces, {"TInit": "<- RateInit", "TStep": "<- RateStep", "TSilent": "<- NoSilent"}), scripts)
        return c.finish()
    base = {"Kinds": {"p", "ln"}, "Obs": {0, 1, 4, 6}, "MaxOps": 6 if THOROUGH else 5, "Gen": False, "Tos": {"reset", "lcl_initial", "testing_lcl", "ucl_trip"}, "Mistake": ""}
    invs = {"C50": ["AlarmMeansReached", "AlarmMeansReachedLow", "NotBeforeComplete", "SoonAsComplete"],
            "C51": ["BaselineIsNewest", "NotBeforeComplete", "SoonAsComplete", "LimitSide"], "C52": ["AlarmMeansReached"]}[pid]
    props = {"C50": ["OnlyDocumented", "AlarmLasts", "RefusedNothing"], "C51": ["NoOtherChange", "LimitSteady"], "C52": ["RefusedNothing"]}[pid]
    c.model("MCStat", cfgtext(consts=base, invs=invs, props=props, view="GenView"), workers=8)
    c.mistakes("MCStat", lambda m: cfgtext(consts=dict(base, Mistake=m), invs=invs, props=props, view="GenView"),
               {"C50": ["calms", "strict", "any"], "C51": ["moves", "sooner", "later", "keeps", "upper", "tested"], "C52": ["strict", "slips"]}[pid])
    scripts = []

    def add(stats, mode, ops, **kw):
        keys = sorted(["strategy", "type", "value", "host", "zone"])
        cfg = {"comp": "stat", "stats": stats, "mode": mode, "level": "test", "make": mode, "default": "", "name": "m", "keys": keys,
               "md": r.choice([[], [["host", "h1"]], [["zone", "z"], ["host", ""]]]), "unit": 0}
        cfg.update(kw)
        scripts.append({"cfg": cfg, "ops": ops})
    n = 6 if THOROUGH else 1
    if pid in ("C50", "C51"):
        g = c.model("MCStat", cfgtext(consts=dict(base, Gen=True, MaxOps=7), view="GenView", actioncon="Emit"), workers=1)
        ss = scripts_of(g.out)
        r.shuffle(ss)
        c.notes["scripts_from_specification"] = len(ss)
        for s in ss[:400 * n]:
            add(s["cfg"]["stats"], s["cfg"]["stats"][0]["kind"], s["ops"], level="stat")
        for i in range(120 * n):
            kind = r.choice(["p", "ln"])
            st = [stat(r, kind, "s", kind)]
            add(st, kind, directed(r, st, kind) if i % 2 else history(r, st, kind, r.randint(10, 120), 40), level="stat")
        for i in range(4 * n):
            for kind in ("p", "ln"):
                st, ops = defaults(r, kind)
                add(st, kind, ops, default=kind)
        for i in range(4 * n):     # large baselines and long lives
            kind = r.choice(["p", "ln"])
            st = [stat(r, kind, "s", kind)]
            # the products of exact comparisons have to stay below 2^31
            st[0]["cap"] = r.choice([16, 32] + [64] * (kind == "p")) if st[0]["exact"] else r.choice([20, 75, 100])
            add(st, kind, directed(r, st, kind), level="stat")
            st = [stat(r, kind, "s", kind)]
            add(st, kind, history(r, st, kind, 1000, 40), level="stat")
    else:
        for i in range(250 * n):
            mode = r.choice(["p", "ln"])
            st = [stat(r, mode if mode == "p" else r.choice(["p", "ln", "ln"]), nm, mode) for nm in r.sample(["a", "b", "c", "ewma"], r.choice([1, 2, 2, 3]))]
            if i % 2 == 0:
                wins = r.choice([0, 0, 2])
                for s in st:
                    s["win"] = wins if s["kind"] == "p" and not s["exact"] else 0
            add(st, mode, directed(r, st, mode) if i % 3 else history(r, st, mode, r.randint(10, 80), 40))
        for i in range(2 * n):
            for kind in ("p", "ln"):
                st, ops = defaults(r, kind)
                add(st, kind, ops, default=kind)
    # log normal observations that hardly differ, and ones as small and as large as numbers get
    for i in range(18 * n):
        st = [dict(stat(r, "ln", nm, "ln", exact=False), win=0) for nm in ["a", "b"][:1 if pid != "C52" else 1 + i % 2]]
        ops = directed(r, st, "ln") if i % 3 else history(r, st, "ln", 60, 40)
        for o in ops:
            if o["op"] == "rec":
                o["v"] = max(-5, min(5, o["v"]))
        add(st, "ln", ops, ls=[2.0 ** -16, 2.0 ** -24, 141.0, 2.0 ** -28, 1e-6, 100.0][i // 3 % 6], **({} if pid == "C52" else {"level": "stat"}))
    if pid == "C52":    # tests of many statistics, with names of all kinds
        for i in range(4 * n):
            mode = r.choice(["p", "ln"])
            st = [stat(r, mode, nm, mode, exact=mode == "p") for nm in ["EWMA", "ewma", "Shewart-3", "a", "A", "b.c", "B_2", "z9", "Z9", "x/y", "q"]]
            for x in st:
                x["win"] = 0
            add(st, mode, directed(r, st, mode)[:40] if i % 2 else history(r, st, mode, 25, 40))
    # configurations that are refused: no room for a baseline (statistics), an option that refuses (tests)
    for i in range(16):
        kind = r.choice(["p", "ln"])
        st = [stat(r, kind, nm, kind) for nm in ["a", "b", "c"][:i % 3 + 1]]
        if pid != "C52" or i % 2:
            r.choice(st)["cap"] = r.choice([0, 0, -1, -7])
        if pid == "C52":
            add(st, kind, history(r, st, kind, 3, 40), **({"refuse": i // 2} if i % 2 == 0 else {}))
        else:
            add(st, kind, history(r, st, kind, 3, 40), level="stat")
    for i, s in enumerate(scripts):
        s["id"] = "t%d" % i
    traces = run_test_driver(build_test_driver("stat"), scripts, procs=4)
    stuck = c.validate("TraceStat", traces, {"TInit": "<- StatInit", "TStep": "<- StatStep", "TSilent": "<- NoSilent"})
    c.stuck("stat", stuck, scripts)
    return c.finish()
