"""C28: payloads of events (pkg/eventbus/event.go) against spec/Event.tla."""
from vlib import *

NOTE = ("TLC checks the encode-a-copy design for all short histories of making, changing, creating, copying and decoding (three wrong designs "
        "must be noticed); scripts covering the state graph plus long seeded histories over 17 payload types, and concurrent creation and "
        "decoding (also with the race detector), run in the real package and every recorded trace is validated by TLC. Values are sampled.")

TYPES = ["int", "int8", "duration", "string", "named", "bool", "float", "bytes", "strs", "ints", "map", "time", "inner", "record", "wide", "tree", "rows"]
HOWS = ["value", "value", "ptr", "ptr", "ptrptr"]


def same(scripts):
    """Maps that hold maps of the same type are passed as values only: gob identifies what an interface holds by the way in which its type
    was registered first, and NewEvent registers the type of what it is given."""
    def do(ops, kinds):
        for o in ops:
            if o["op"] in ("make", "change"):
                kinds[o["o"]] = o["ty"]
            elif o["op"] == "par":
                for t in o["threads"]:
                    do(t, kinds)
            elif o["op"] == "new" and o["how"] in HOWS and kinds.get(o["o"]) == "tree":
                o["how"] = "value"
    for s in scripts:
        do(s["ops"], {})


def check(pid):
    c = Check(pid)
    r = c.rng
    base = {"Objs": {"o1", "o2"}, "Evs": {"e1", "e2"}, "Types": {"int", "strs"}, "Vals": {1, 2}, "MaxOps": 7 if THOROUGH else 5, "Gen": False, "Mistake": ""}
    c.model("MCEvent", cfgtext(consts=base, invs=["Conforms"], props=["Frozen"], view="GenView"), workers=8)
    for m in ("shares", "buffer", "once"):
        if tlc("MCEvent", cfgtext(consts=dict(base, Mistake=m), invs=["Conforms"], view="GenView"), workers=4).rc != 12:
            raise Broken("the specification does not notice the design mistake '%s'" % m)
    g = c.model("MCEvent", cfgtext(consts=dict(base, Gen=True, MaxOps=7), view="GenView", actioncon="Emit"), workers=1)
    gen = scripts_of(g.out)
    c.notes["scripts_from_specification"] = len(gen)
    r.shuffle(gen)
    scripts = []
    for s in gen[:6000 if THOROUGH else 1500]:
        a, b = r.sample(TYPES, 2)
        m = {"int": a, "strs": b}
        vs = r.sample(range(9), 2)
        ops = []
        for o in s["ops"]:
            o = dict(o)
            if "ty" in o:
                o["ty"] = m[o["ty"]]
            if "v" in o:
                o["v"] = vs[o["v"] - 1]
            if o["op"] == "new" and o["how"] == "data":
                o["how"] = r.choice(HOWS)
            if o["op"] == "new":
                o["t"] = r.choice(["t", "", "log", "ü", o["t"]])
            ops.append(o)
        ops += [{"op": "type", "e": e} for e in sorted({o["e"] for o in ops if o["op"] in ("new", "copy")})]
        scripts.append({"ops": ops})

    def one(k):
        ops, objs, evs, n = [], {}, [], 0
        types = r.sample(TYPES, r.randint(1, 5))
        kinds = {}

        def create(how=None):
            nonlocal n
            n += 1
            e = "e%d" % n
            how = how or r.choice(HOWS * 3 + ["nil", "error", "error", "nilerror", "bad"])
            o = r.choice(list(objs)) if objs else ""
            if how in HOWS and not objs:
                how = "nil"
            if how != "bad":
                evs.append(e)
                kinds[e] = objs[o] if how in HOWS else how
            return {"op": "new", "e": e, "o": o, "how": how, "v": r.randint(0, 8), "t": r.choice(["t", "", "log", "sink error", "Upper.Case", " padded\t", "x" * 300, "t%d" % n])}

        def decode():
            e = r.choice(evs)
            ty = kinds[e] if kinds[e] in TYPES and r.random() < .8 else r.choice(["string", "error"]) if kinds[e] == "error" and r.random() < .8 else r.choice(types + TYPES + ["error"])
            return {"op": "dec", "e": e, "ty": ty}
        for _ in range(r.randint(3, 40)):
            x = r.random()
            if x < .2 or not objs:
                o = "o%d" % r.randint(1, 4)
                ops.append({"op": "change" if o in objs else "make", "o": o, "ty": objs.setdefault(o, r.choice(types)), "v": r.randint(0, 8)})
            elif x < .45 or not evs:
                ops.append(create())
            elif x < .5:
                n += 1
                f = r.choice(evs)
                ops.append({"op": "copy", "e": "e%d" % n, "f": f})
                evs.append("e%d" % n)
                kinds["e%d" % n] = kinds[f]
            elif x < .55:
                ops.append({"op": "type", "e": r.choice(evs)})
            elif x < .9:
                ops.append(decode())
            else:
                # decoding known events and creating others at the same time
                known = list(evs)
                threads = []
                for _ in range(r.randint(2, 4)):
                    th = []
                    for _ in range(r.randint(1, 4)):
                        if r.random() < .3 and objs:
                            c0 = create()
                            th.append(c0)
                        else:
                            e = r.choice(known)
                            th.append({"op": "dec", "e": e, "ty": kinds[e] if kinds[e] in TYPES else "string"})
                    threads.append(th)
                ops.append({"op": "par", "threads": threads})
        # everything once more
        for e in evs:
            ops.append({"op": "dec", "e": e, "ty": kinds[e] if kinds[e] in TYPES else "error"})
        return ops
    for k in range(4000 if THOROUGH else 800):
        scripts.append({"ops": one(k)})
    for bad in range(6):
        scripts.append({"ops": [{"op": "new", "e": "e1", "how": "bad", "v": bad, "t": "t"}]})
    for v in range(11):
        scripts.append({"ops": [{"op": "new", "e": "e1", "how": "error", "v": v, "t": "t"}, {"op": "dec", "e": "e1", "ty": "error"}, {"op": "dec", "e": "e1", "ty": "string"},
                                {"op": "dec", "e": "e1", "ty": "int"}, {"op": "type", "e": "e1"}]})
        for ty in TYPES if v < 9 else ["string", "named", "bytes", "strs", "inner"]:
            for how in ("value", "ptr"):
                scripts.append({"ops": [{"op": "make", "o": "o", "ty": ty, "v": v}, {"op": "new", "e": "e1", "o": "o", "how": how, "t": "t"}, {"op": "dec", "e": "e1", "ty": ty},
                                        {"op": "change", "o": "o", "ty": ty, "v": v + 1}, {"op": "new", "e": "e2", "o": "o", "how": "value", "t": "u"}, {"op": "dec", "e": "e1", "ty": ty},
                                        {"op": "dec", "e": "e2", "ty": ty}, {"op": "dec", "e": "e1", "ty": "bool" if ty != "bool" else "map"}]})
    same(scripts)
    for i, s in enumerate(scripts):
        s["id"] = "e%d" % i
        s["cfg"] = {"comp": "event"}
    raced = [dict(s, id="r" + s["id"]) for s in scripts if any(o["op"] == "par" for o in s["ops"])]
    a, b = parallel([lambda: run_test_driver(build_test_driver("event"), scripts, procs=3),
                     lambda: run_test_driver(build_test_driver("event", race=True), raced, procs=3, env={"VERIF_RACE": "1", "GORACE": "halt_on_error=1"})])
    stuck = c.validate("TraceEvent", a + b, {"TInit": "<- EventInit", "TStep": "<- EventStep", "TSilent": "<- NoSilent"})
    c.stuck("event", stuck, scripts + raced)
    return c.finish()
