"""C40, C41, C42, C44: pkg/metric against Series, Sampled, Windowed and Names."""
from vlib import *
from checks import lin

NOTE = ("TLC checks the specification of the component (ring buffer, window goroutine, rolling windows, copied maps) exhaustively within "
        "small constants; operation sequences covering its state graph plus seeded random ones far beyond the bounds run in the real "
        "package, timed ones under a fake clock, and TLC validates every recorded trace. Values are small integers.")


# see "special" in the driver: NaN, infinities, the largest and smallest numbers ...
SPECIAL = list(range(900000001, 900000010))


def consts(p):
    return {"TInit": "<- %sInit" % p, "TStep": "<- %sStep" % p, "TSilent": "<- SampledSilent" if p == "Sampled" else "<- NoSilent"}


def series(c):
    N = 8 if THOROUGH else 6
    base = {"Caps": {1, 2, 3}, "Vals": {1, 2}, "MaxOps": N, "Gen": False, "Mistake": ""}
    c.model("MCSeries", cfgtext(consts=base, invs=["RingRefines", "NewestInOrder", "CountExact"], view="GenView"), workers=4)
    c.mistakes("MCSeries", lambda m: cfgtext(consts=dict(base, MaxOps=5, Mistake=m), invs=["RingRefines", "NewestInOrder", "CountExact"], view="GenView"), ["stop", "stale", "count", "unrolled"])
    g = c.model("MCSeries", cfgtext(consts=dict(base, Gen=True, Caps={1, 2, 3, 4}, Vals={1, 2}), view="GenView", actioncon="Emit"), workers=1)
    out = []
    for s in scripts_of(g.out):
        s["cfg"].update(init=[], named=False, name="")
        ops = []
        for i, o in enumerate(s["ops"]):
            ops += [o, {"op": "values"}, {"op": "count"}] + ([{"op": "look", "i": c.rng.randint(0, 50)}] if c.rng.random() < .5 else [])
        s["ops"] = ops + [{"op": "cap"}]
        out.append(s)
    r = c.rng
    for i in range(1500 if THOROUGH else 400):
        cap = r.choice([-3, 0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 16, 33])
        named = r.random() < .4
        ops = []
        v = 0
        for _ in range(r.randint(3, 60)):
            x = r.random()
            v += 1
            ops.append({"op": "record", "v": r.choice([v, v, v, -v, 0, r.choice(SPECIAL)])} if x < .6 else {"op": "values"} if x < .75 else {"op": "count"} if x < .82
                       else {"op": "look", "i": r.randint(0, 50)} if x < .94 else {"op": "reset"} if x < .97 else {"op": "name"} if x < .98 else {"op": "cap"})
        ops += [{"op": "values"}, {"op": "count"}, {"op": "cap"}, {"op": "look", "i": r.randint(0, 9)}]
        out.append({"cfg": {"cap": cap, "init": [r.randint(-9, 9) for _ in range(r.choice([0, 0, 1, 2, 5, 20, 40]))],
                            "named": named, "name": r.choice(["", "x", "y"]) if named else ""}, "ops": ops})
    # sizes beyond anything a test or a buffer would have
    for i in range(12 if THOROUGH else 4):
        cap = r.choice([64, 100, 256, 257, 1000])
        ops = []
        for v in range(r.choice([cap - 1, cap, cap + 1, 3 * cap, 3 * cap + 7])):
            ops.append({"op": "record", "v": v + 1})
            if r.random() < .02:
                ops += [{"op": "values"}, {"op": "look", "i": r.randint(0, 9)}]
            if r.random() < .001:
                ops.append({"op": "reset"})
        ops += [{"op": "values"}, {"op": "count"}, {"op": "cap"}, {"op": "look", "i": 0}]
        out.append({"cfg": {"cap": cap, "init": list(range(r.choice([0, 10, 300]))), "named": False, "name": ""}, "ops": ops})
    # histories far longer than the capacity
    for cap, ks in ((1, [70000]), (3, [70000, 1]), (7, [65536, 65536, 5]), (100, [2 ** 24, 3]), (5, [2 ** 24 - 2, 1, 1, 1, 1, 1]), (64, [10 ** 6, 10 ** 6])):
        ops = []
        for k in ks:
            ops += [{"op": "many", "v": 7, "k": k}, {"op": "count"}, {"op": "values"}]
            for v in range(r.choice([2, cap - 1, cap, cap + 3])):
                ops.append({"op": "record", "v": 10 + v})
                if v < 9:
                    ops += [{"op": "values"}, {"op": "count"}]
            ops += [{"op": "values"}, {"op": "count"}]
        out.append({"cfg": {"cap": cap, "init": [], "named": False, "name": ""}, "ops": ops + [{"op": "reset"}, {"op": "record", "v": 1}, {"op": "values"}, {"op": "count"}]})
    return "Series", "series", out


def sampled(c):
    base = {"Caps": {1, 2}, "Wins": {0, 1, 2}, "MaxOps": 7 if THOROUGH else 6, "Gen": False, "Mistake": ""}
    c.model("MCSampled", cfgtext(consts=base, invs=["OnePerWindow", "ExactlyOnce", "Direct", "Unused"], props=["NothingAfterDone"], view="GenView"), workers=4)
    c.mistakes("MCSampled", lambda m: cfgtext(consts=dict(base, MaxOps=5, Mistake=m), invs=["OnePerWindow", "ExactlyOnce", "Direct", "Unused"], props=["NothingAfterDone"], view="GenView"), ["keep", "skip", "last", "drop", "reset"])
    g = c.model("MCSampled", cfgtext(consts=dict(base, Gen=True, Caps={2}, MaxOps=7), view="GenView", actioncon="Emit"), workers=1)
    out = []
    r = c.rng
    trs = ["sum", "avg", "min", "max", "code"]

    def expand(ops, tr):
        res = []
        for o in ops:
            if o["op"] == "pass":
                o = {"op": "pass", "n": o["v"], "settle": r.random() < .6}
            if o["op"] == "record" and tr == "avg":
                o = dict(o, v=o["v"] * 60)
            if o["op"] == "record" and tr == "code" and r.random() < .1:
                o = dict(o, v=r.choice(SPECIAL))
            res.append(o)
            if r.random() < .35:
                res.append({"op": r.choice(["values", "count", "look", "values"]), "i": r.randint(0, 9)})
        for _ in range(r.choice([0, 0, 1])):
            res.append({"op": "agg", "tr": r.choice(["sum", "avg", "min", "max"]), "q": [r.randint(-99, 99) for _ in range(r.choice([0, 0, 1, 2, 3, 7, 40]))]})
        return res + [{"op": "values"}, {"op": "count"}, {"op": "cap"}, {"op": "name"}]
    for s in scripts_of(g.out):
        tr = r.choice(trs)
        s["cfg"].update(tr=tr, init=[], named=False, name="", unit=0)
        s["ops"] = expand(s["ops"], tr)
        out.append(s)
    for i in range(1500 if THOROUGH else 400):
        tr = r.choice(trs)
        win = r.choice([0, 1, 2, 3, 5, 5, 10])
        ops, left = [], 6
        for _ in range(r.randint(5, 40)):
            x = r.random()
            if x < .5 and left:
                ops.append({"op": "record", "v": r.choice([-1, 1, 1]) * r.randint(0, 9)})
                left -= tr == "avg"
            elif x < .9:
                n = r.choice([1, 1, 2, win, win + 1, 2 * win, 3 * win]) or 1
                if tr == "avg":   # at most six observations in a window, so that averages are whole numbers
                    n = max(n, win) if left == 0 else n
                    if n >= win:
                        left = 0
                ops.append({"op": "pass", "v": n})
                if left == 0:
                    left = 6 if n >= win and win else 3
            elif x < .95:
                ops.append({"op": "reset"})
        if r.random() < .3:
            ops.insert(r.randint(0, len(ops)), {"op": "done"})
        ops = expand(ops, tr)
        if tr == "avg":
            ops = limit_avg(ops, win)
        named = r.random() < .3
        out.append({"cfg": {"cap": r.choice([1, 2, 3, 5, 8] * 5 + [0, -1]), "win": win, "tr": tr, "init": [r.randint(0, 9) for _ in range(r.choice([0, 0, 0, 3]))],
                            "named": named, "name": r.choice(["x", "a b", "x", ""]) if named else "", "unit": r.choice([0, 1000, 7_000_003, 10**9])}, "ops": ops})
    for i in range(16 if THOROUGH else 6):
        cap, win, tr = r.choice([3, 64, 200]), r.choice([1, 2, 7]), r.choice(["sum", "min", "max", "code"])
        ops = []
        if i % 2:       # hundreds of observations in a window
            for w in range(4):
                ops += [{"op": "record", "v": r.randint(-9, 9)} for _ in range(r.choice([65, 130, 300]))] + [{"op": "pass", "v": r.choice([win, 2 * win])}] + [{"op": "values"}] * (w % 2)
        else:           # hundreds of windows
            for w in range(300):
                ops += [{"op": "record", "v": r.randint(-9, 9)} for _ in range(r.choice([0, 1, 1, 2]))] + [{"op": "pass", "v": r.choice([1, 1, win, 3])}]
        res, passes = [], 0
        for o in ops:
            passes += o["op"] == "pass"
            res.append({"op": "pass", "n": o["v"], "settle": r.random() < .6 or bool(i % 2) and passes % 2 == 0} if o["op"] == "pass" else o)
            if r.random() < .02:
                res.append({"op": r.choice(["values", "count", "look"]), "i": r.randint(0, 9)})
        out.append({"cfg": {"cap": cap, "win": win, "tr": tr, "init": [], "named": False, "name": "", "unit": r.choice([0, 1000, 10**9])},
                    "ops": res + [{"op": "values"}, {"op": "count"}, {"op": "look", "i": 0}]})
    # tens of thousands of observations in a window
    for tr, win in (("sum", 2), ("max", 1), ("min", 3), ("code", 1), ("code", 0)):
        k = r.choice([12000, 20001, 40000])
        out.append({"cfg": {"cap": 4, "win": win, "tr": tr, "init": [], "named": False, "name": "", "unit": 0},
                    "ops": [{"op": "record", "v": 5}, {"op": "many", "v": 3, "k": k}, {"op": "record", "v": 9}, {"op": "many", "v": 4, "k": 3000}, {"op": "record", "v": -2},
                            {"op": "pass", "n": 3 * win + 1, "settle": True}, {"op": "values"}, {"op": "count"}]})
    for s in out:
        s["ops"] = look_often(s["ops"])
    return "Sampled", "sampled", out


def look_often(ops):
    """Every time that ends at the end of a window leaves open which window the next observation is of: two possible states, which
    only a look at the values tells apart.  Bounds how many there can be."""
    res, n = [], 0
    for o in ops:
        if o["op"] == "pass" and not o["settle"]:
            n += 1
            if n > 5:
                res.append({"op": "values"})
                n = 0
        elif o["op"] in ("values", "reset"):
            n = 0
        res.append(o)
    return res


def limit_avg(ops, win):
    """Drop observations so that no window, whatever side its boundary instants fall on, has more than six."""
    res, now, seen = [], 0, {}
    for o in ops:
        if o["op"] == "pass":
            now += o["n"]
        if o["op"] == "record" and win:
            ws = {now // win, (now - 1) // win}
            if any(seen.get(w, 0) >= 6 for w in ws):
                continue
            for w in ws:
                seen[w] = seen.get(w, 0) + 1
        res.append(o)
    return res


def windowed(c):
    base = {"Wins": {0, 2}, "Unsets": {False, True}, "MaxOps": 7 if THOROUGH else 6, "MaxTime": 9, "Gen": False, "Limits": "<- MCLimits", "Mistake": ""}
    c.model("MCWindowed", cfgtext(consts=base, invs=["NothingLost", "Ordered", "OneCounter", "RightWindow", "CurrentSum", "Retained", "Complete"], view="GenView"), workers=8)
    c.mistakes("MCWindowed", lambda m: cfgtext(consts=dict(base, MaxOps=5, Mistake=m), invs=["NothingLost", "Ordered", "OneCounter", "RightWindow", "CurrentSum", "Retained", "Complete"], view="GenView"),
               ["both", "old", "lost", "start", "order", "reset"])
    g = c.model("MCWindowed", cfgtext(consts=dict(base, Gen=True, MaxOps=8, MaxTime=12), view="GenView", actioncon="Emit"), workers=1)
    out = []
    r = c.rng
    look = ["value", "hist", "histi", "look", "value", "histi"]

    def expand(ops, p):
        res = []
        for o in ops:
            if o["op"] == "pass":
                res.append({"op": "pass", "n": o["v"]})
            elif o["op"] == "limit":
                res += [{"op": "max", "v": o["v"]}, {"op": "maxd", "v": o["d"]}]
            else:
                res.append(o)
            while r.random() < p:
                res.append({"op": r.choice(look), "i": r.randint(0, 20)})
        return res + [{"op": "value"}, {"op": "hist"}, {"op": "histi"}, {"op": "look", "i": r.randint(0, 9)}]
    for s in scripts_of(g.out):
        s["cfg"].update(concurrent=False, unit=0)
        s["ops"] = expand(s["ops"], .5)
        out.append(s)
    for i in range(2000 if THOROUGH else 500):
        win = r.choice([0, 1, 2, 3, 4, 10])
        kind = r.random()
        ops = []
        mx, md = 0, 0
        for _ in range(r.randint(5, 50)):
            x = r.random()
            if x < .5:
                ops.append({"op": "add", "v": r.choice([0, 1, 1, 2, 3, 7, 1000])})
            elif x < .9:
                ops.append({"op": "pass", "v": r.choice([1, 1, 1, 2, 3, win, win + 1, 2 * win + 1, 15]) or 1})
            elif x < .93:
                ops.append({"op": "reset"})
            elif x < .97 and (mx == 0 or mx > 1):
                mx = r.randint(1, 4) if mx == 0 else r.randint(1, mx)
                ops.append({"op": "max", "v": mx})
            elif md == 0 or md > 1:
                md = r.randint(1, 20) if md == 0 else r.randint(1, md)
                ops.append({"op": "maxd", "v": md})
        out.append({"cfg": {"win": win, "unset": kind < .15, "concurrent": .15 <= kind < .35, "unit": r.choice([0, 1, 10**6, 3_600_000_000_000]),
                            "vu": r.choice([1, 1, 2 ** 31, 2 ** 33, 10 ** 12])},
                    "ops": expand(ops, .35)})
    for i in range(16 if THOROUGH else 7):
        win = r.choice([1, 3]) if i != 6 else 1     # odd, and all times are even: no instant at a boundary, where either answer would do
        ops = [{"op": "max", "v": r.choice([100, 128, 250])}] if i % 3 == 1 and i < 6 else [{"op": "max", "v": 1100}] if i == 6 else [{"op": "maxd", "v": r.choice([251, 601])}] if i % 3 == 2 else []
        n = 0
        for w in range(1800 if i == 6 else 400):
            ops += [{"op": "add", "v": r.choice([1, 2, 10**5])} for _ in range(r.choice([0, 1, 1, 1, 2]))]
            ops.append({"op": "pass", "v": r.choice([2, 4])})
            n += 1
            if w in (200, 399, 1799) or w != 0 and i < 6 and r.random() < .01:
                ops += [{"op": "value"}, {"op": "hist"}, {"op": "histi"}, {"op": "look", "i": 0}]
        res = [{"op": "pass", "n": o["v"]} if o["op"] == "pass" else o for o in ops]
        out.append({"cfg": {"win": win, "unset": False, "concurrent": False, "unit": r.choice([0, 10**6]), "vu": r.choice([1, 2 ** 33])}, "ops": res + [{"op": "hist"}, {"op": "histi"}, {"op": "look", "i": 0}]})
    # one window with thousands of events
    out.append({"cfg": {"win": 5, "unset": False, "concurrent": False, "unit": 0}, "ops": [{"op": "add", "v": 1 + i % 3} for i in range(3000)] + [{"op": "value"}, {"op": "pass", "n": 6}, {"op": "hist"}, {"op": "value"}]})
    return "Windowed", "windowed", out


def names(c):
    base = {"Keys": {"k1", "k2"}, "MaxNames": 3 if THOROUGH else 2, "MaxOps": 4, "Gen": False, "Mistake": ""}
    c.model("MCNames", cfgtext(consts=base, invs=["Refines", "Independent", "Determined", "Distinguishes"], props=["OnlyTouched"], view="GenView"), workers=4)
    c.mistakes("MCNames", lambda m: cfgtext(consts=dict(base, MaxNames=2, Mistake=m), invs=["Refines", "Independent", "Determined", "Distinguishes"], props=["OnlyTouched"], view="GenView"), ["shared", "replace", "first"])
    g = c.model("MCNames", cfgtext(consts=dict(base, Gen=True, MaxNames=2, MaxOps=4), view="GenView", actioncon="Emit"), workers=1)
    out = []
    r = c.rng
    ss = scripts_of(g.out)
    r.shuffle(ss)
    for s in ss[:2000 if THOROUGH else 500]:
        for o in s["ops"]:
            o["name"] = "n"
            if o["op"] != "new":
                o["i"] -= 1
        s["cfg"]["seed"] = r.randint(0, 10**6)
        out.append(s)
    vocab = ["A", "B2", "Z", "a", "aa", "ab", "b", "b1", "b2", "host", "k", "k10", "k2", "loc", "mean", "summary", "z", "zz"]
    for i in range(2000 if THOROUGH else 400):
        keys = sorted(r.sample(vocab, r.randint(1, 9)))
        vals = ["", "", "v", "w", "1", "x.y-z", "pod1", "us-west1", "True", keys[0]]
        quoted = []
        if i % 3 == 0:      # values that logfmt quotes, so that they do not look like further metadata
            quoted = r.sample(["null", "a b", " ", "v w=x", "=", "k=v", "\"", "say \"hi\"", "a\tb", "x\ny", "c:\\a b", "@a b", "w ]", "é a"], 4)
            vals = vals[1:] + quoted + ["a]b", "é", "@v", "c:\\a", "[x"]
        ops = []
        for _ in range(r.randint(2, 14)):
            ks = r.sample(keys, r.randint(0, min(4, len(keys))))
            ann = r.random() < .35
            md = [[k, "" if ann else r.choice(vals)] for k in ks]
            x = r.random()
            if x < .25 or not ops:
                ops.append({"op": "new", "name": r.choice(["requests_count", "x", "", "a.b"]), "md": md if r.random() < .6 else []})
            elif x < .45:
                ops.append({"op": "from", "i": r.randint(0, 20)})
            else:
                ops.append({"op": "md", "i": r.randint(0, 20), "md": md, "show": r.random() < .5})
        out.append({"cfg": {"keys": keys, "seed": r.randint(0, 10**6)}, "ops": ops})
        if quoted:
            out[-1]["cfg"]["enc"] = [[v, json.dumps(v, ensure_ascii=False)] for v in quoted]
    for i in range(12 if THOROUGH else 4):
        keys = sorted({r.choice("abcxyzABC") + "%d" % r.randint(0, 99) for _ in range(60)})
        ops = [{"op": "new", "name": "big", "md": [[k, r.choice(["", "v", "w%d" % j])] for j, k in enumerate(r.sample(keys, 20))]}]
        for k in range(40):
            ops.append({"op": "from", "i": r.randint(0, 50)} if r.random() < .2 else {"op": "md", "i": r.randint(0, 50), "md": [[x, r.choice(["", "u%d" % k])] for x in r.sample(keys, 3)], "show": r.random() < .3})
        out.append({"cfg": {"keys": keys, "seed": r.randint(0, 10**6)}, "ops": ops})
    return "Names", "names", out


def check(pid):
    c = Check(pid)
    module, comp, scripts = {"C40": series, "C41": sampled, "C42": windowed, "C44": names}[pid](c)
    for i, s in enumerate(scripts):
        s["id"] = "%s%d" % (comp, i)
        s["cfg"]["comp"] = comp
    if pid == "C41":
        # once more with other schedules of the window goroutine, for operations at the very end of a window
        again = [dict(s, id="y" + s["id"]) for s in scripts]
        a, b = parallel([lambda: run_test_driver(build_test_driver("metric"), scripts, procs=4),
                         lambda: run_test_driver(build_test_driver("metric", instrument(["pkg/metric/sampled.go", "pkg/metric/series.go"])), again, procs=4)])
        traces, scripts = a + b, scripts + again
    else:
        traces = run_test_driver(build_test_driver("metric"), scripts, procs=4)
    stuck = c.validate("Trace" + module, traces, consts(module))
    c.stuck(comp, stuck, scripts)
    if pid in ("C41", "C42"):
        lin.concurrent(c, "metric", [comp], ["pkg/metric/counter.go", "pkg/metric/sampled.go", "pkg/metric/series.go"], 1200 if THOROUGH else 240)
    return c.finish()
