"""C20-C23: the event bus."""
from vlib import *

NOTE = ("TLC checks a model of the bus (lock, sender goroutines, one-place channels, quit signals, shutdown) against the observer "
        "specification Bus.tla, including liveness. The real bus, with a schedule perturbation before every statement, is driven by "
        "generated concurrent scripts under a fake clock; every recorded history is validated by TLC against the same observer. A second "
        "build with the race detector runs the same scripts. Interleavings of the real code are sampled, those of the model enumerated.")

TOPICS = ["a", "b", "c"]
# names that could be taken for one another
LIKE = [["a", "A", "b"], ["error", "Error", "ERROR"], ["", "a", " "], ["a", "a ", " a"], ["a.b", "a", "a.*"], ["*", "a", "b"], ["log", "logs", "lo"], ["default", "on error", "all"], ["\u00e9", "e\u0301", "e"], ["x" * 300, "x" * 299, "x" * 301]]


class Gen:
    def __init__(self, r, pid):
        self.r, self.pid, self.ev, self.ns, self.nc = r, pid, 0, 0, 0
        self.ops, self.live, self.stuck, self.shut = [], [], [], False
        self.tops = TOPICS if r.random() < .6 else r.choice(LIKE)

    def topics(self, empty=.2):
        r = self.r
        return [] if r.random() < empty else r.sample(self.tops, r.choice([1, 1, 2, 3]))

    def sub(self, **kw):
        self.ns += 1
        r = self.r
        stuck = r.random() < {"C20": .1, "C21": .5, "C22": .25, "C23": .2}[self.pid]
        o = {"op": "sub", "s": self.ns, "topics": self.topics(), "mode": "stuck" if stuck else "eager", "full": r.random() < .6,
             "manual": r.random() < (.4 if self.pid == "C22" else .05), "reenter": r.random() < (.3 if self.pid == "C22" else .1)}
        o.update(kw)
        self.live.append(self.ns)
        if o["mode"] == "stuck":
            self.stuck.append(self.ns)
        return o

    def disp(self):
        self.ev += 1
        return {"op": "disp", "ev": self.ev, "topics": self.topics(.15)}

    def unsub(self):
        if not self.live or self.r.random() < .1:
            return {"op": "unsub", "s": 0}
        s = self.r.choice(self.live)
        if self.r.random() < .8:
            self.live.remove(s)
        return {"op": "unsub", "s": s}

    def shutdown(self):
        self.nc += 1
        return {"op": "shut", "c": "c%d" % self.nc, "ended": self.r.random() < .2}

    def one(self, top=False):
        r, x = self.r, self.r.random()
        w = {"C20": (.15, .75, .82, .86), "C21": (.2, .7, .8, .85), "C22": (.15, .5, .6, .8), "C23": (.2, .6, .92, .95)}[self.pid]
        if x < w[0]:
            return self.sub()
        if x < w[1]:
            return self.disp()
        if x < w[2]:
            return self.unsub()
        if x < w[3] and self.nc < 3:
            return self.shutdown()
        y = r.random()
        if y < .2 and top:
            return {"op": "pass", "n": r.choice([1, 30, 3600, 100000])}
        if y < .45 and self.stuck:
            return {"op": "resume", "s": r.choice(self.stuck)}
        if y < .6 and self.ns:
            return {"op": "finish", "s": r.randint(1, self.ns)}
        if y < .8 and self.nc:
            return {"op": "cancel", "c": "c%d" % r.randint(1, self.nc)}
        return self.disp()

    def par(self):
        r = self.r
        n = r.choice([2, 2, 3])
        return {"op": "par", "threads": [[self.one() for _ in range(r.randint(1, 3 if n < 3 else 2))] for _ in range(n)]}

    def script(self):
        r = self.r
        for _ in range(r.randint(1, 4)):
            self.ops.append(self.sub())
        for _ in range(r.randint(1, 4)):
            if r.random() < .6:
                self.ops.append(self.par())
            else:
                o = self.one(True)
                # an operation that may wait for others runs beside nothing
                self.ops.append({"op": "par", "threads": [[o]]} if o["op"] == "shut" else o)
                if r.random() < .5:
                    self.ops.append({"op": "idle"})
        return {"cfg": {"comp": "bus", "unit": 0}, "ops": self.ops}


def fixed():
    """Scripts for the corners that a random script rarely hits."""
    out = []

    def S(*ops):
        out.append({"cfg": {"comp": "bus", "unit": 0}, "ops": list(ops)})

    def sub(s, topics, **kw):
        return dict({"op": "sub", "s": s, "topics": topics, "mode": "eager", "full": False, "manual": False, "reenter": False}, **kw)

    def disp(e, *t):
        return {"op": "disp", "ev": e, "topics": list(t)}
    idle = {"op": "idle"}

    def shut(c, ended=False):
        return {"op": "par", "threads": [[{"op": "shut", "c": c, "ended": ended}]]}
    many = ["a", "b", "c", "d", "e"]
    day = {"op": "pass", "n": 86400}
    # far more pending events than anybody would put into a buffer
    S(sub(1, ["a"], mode="stuck"), sub(2, ["b"]), *[disp(i, "a") for i in range(1, 2200)], disp(3000, "a", "b"), idle, {"op": "resume", "s": 1}, idle)
    S(sub(1, ["a"], mode="stuck"), *[disp(i, "a") for i in range(1, 5)], idle, day, disp(5, "a"), day, {"op": "resume", "s": 1}, idle)
    S(sub(1, ["a"]), sub(2, [], mode="stuck"), disp(1, "a"), day, disp(2, "a"), idle, day, {"op": "unsub", "s": 1}, disp(3), idle, {"op": "resume", "s": 2}, idle)
    S(sub(1, ["a"], manual=True), sub(2, ["a"], mode="stuck"), disp(1, "a"), shut("x"), day, idle, {"op": "finish", "s": 1}, idle, day, {"op": "resume", "s": 2}, idle)
    S(sub(1, many), disp(1, *many), idle, shut("x"))
    S(sub(1, []), sub(2, ["a"]), disp(1), disp(2, "a"), disp(3, "b"), disp(4, "a", "b"), idle, shut("x"))
    S(sub(1, ["a"], mode="stuck"), *[disp(i, "a") for i in range(1, 9)], sub(2, ["a"]), disp(9, "a"), idle, {"op": "resume", "s": 1}, idle)
    S(sub(1, ["a"], mode="stuck"), sub(2, ["a"]), *[disp(i, "a") for i in range(1, 6)], shut("x"), sub(3, ["a"]), disp(7, "a"), idle,
      {"op": "resume", "s": 1}, idle)
    S(sub(1, ["a", "b"], mode="stuck"), *[disp(i, "a", "b") for i in range(1, 4)], {"op": "unsub", "s": 1}, sub(2, ["b"]), disp(4, "b"), idle, shut("x"))
    S(sub(1, ["a"], full=True), sub(2, ["a"], full=True), sub(3, ["b"], full=True), {"op": "unsub", "s": 2}, {"op": "unsub", "s": 2},
      {"op": "unsub", "s": 0}, disp(1, "a"), disp(2, "b"), idle, shut("x"))
    for s in (1, 2, 3):
        S(*[sub(i, ["a"] if i != s else many, full=True, manual=i != s) for i in (1, 2, 3)], {"op": "unsub", "s": s}, disp(1, "a"), shut("x"), idle,
          {"op": "finish", "s": 1}, idle, {"op": "finish", "s": 2}, idle, {"op": "finish", "s": 3}, idle)
    S(sub(1, ["a"], manual=True), sub(2, ["a"], manual=True), shut("x"), {"op": "finish", "s": 1}, idle, {"op": "cancel", "c": "x"}, idle,
      shut("y"), {"op": "finish", "s": 2}, idle)
    S(shut("x"), shut("y"), sub(1, []), idle, disp(1), idle)
    S(sub(1, ["a"], manual=True), shut("x", True), shut("y", True), {"op": "finish", "s": 1}, idle)
    S(sub(1, ["a"], reenter=True), sub(2, ["a"], reenter=True), disp(1, "a"), shut("x"), idle)
    S(sub(1, []), {"op": "par", "threads": [[disp(i, "a") for i in range(1, 20)], [disp(i) for i in range(21, 40)]]})
    S(sub(1, ["a"], manual=True, full=True), shut("x"), {"op": "unsub", "s": 1}, idle)
    S(sub(1, ["a"], mode="stuck"), sub(2, []), disp(7000, "a"), disp(7001, "b"), disp(7009, "a", "b"), idle, disp(1, "a"), idle, {"op": "resume", "s": 1}, idle, shut("x"))
    S(*[sub(i, ["a"] if i <= 140 else []) for i in range(1, 281)], disp(1, "a"), disp(2), disp(3, "a", "b"), idle, {"op": "unsub", "s": 5}, {"op": "unsub", "s": 139}, {"op": "unsub", "s": 270}, disp(4, "a"), idle, shut("x"))
    # many on one topic, most of which leave again
    for left in ([40], [1, 36, 45], list(range(33, 46)), list(range(1, 46, 2))):
        S(*[sub(i, ["a"]) for i in range(1, 46)], disp(1, "a"), idle, *[{"op": "unsub", "s": i} for i in left], disp(2, "a"), idle, {"op": "unsub", "s": left[0]}, disp(3, "a"), idle, shut("x"))
    for t in LIKE:
        S(*[sub(i + 1, [x]) for i, x in enumerate(t)], sub(9, []), *[disp(i + 1, x) for i, x in enumerate(t)], disp(8, *t), disp(9), idle, {"op": "unsub", "s": 1}, disp(10, *t), idle, shut("x"))
    # many subscribers, many topics, many times the same
    tops = ["t%d" % i for i in range(60)]
    S(*[sub(i, ["a"] if i % 3 else [], mode="stuck" if i % 10 == 0 else "eager") for i in range(1, 81)], disp(1, "a"), disp(2, "b"), idle, {"op": "unsub", "s": 33}, {"op": "unsub", "s": 1},
      {"op": "unsub", "s": 80}, disp(3, "a"), idle, *[{"op": "resume", "s": i} for i in range(10, 71, 10)], idle, shut("x"))
    S(sub(1, tops), *[sub(i + 2, [tops[i]]) for i in range(0, 60, 5)], disp(1, *tops), disp(2, tops[59]), *[disp(i + 3, tops[i]) for i in range(60)], idle, shut("x"))
    S(*[x for i in range(1, 61) for x in (sub(i, ["a"]), disp(i, "a"), {"op": "unsub", "s": i})], sub(100, ["a"]), disp(99, "a"), idle, shut("x"))
    S(*[sub(i, ["a"], manual=True) for i in range(1, 41)], disp(1, "a"), shut("x"), idle, *[{"op": "finish", "s": i} for i in range(1, 41)], idle)
    return out


CONSTS = {"TInit": "<- BusInit", "TStep": "<- BusStep", "TSilent": "<- BusSilent"}


def models(pid):
    """(constants, invariants, liveness properties)"""
    inv = ["Allowed", "ChannelsCloseOnce", "LockOk"]
    base = {"Stuck": "<- None", "Unsubs": "<- None", "Disps": "<- D12", "WithShut": False, "Mistake": ""}
    if pid == "C20":
        out = [(base, inv, ["Completes", "Delivered"])]
    elif pid == "C21":
        out = [(dict(base, Stuck="<- S3", Unsubs="<- S3", Disps="<- D1"), inv, ["Completes", "Delivered"]),
               (dict(base, Stuck="<- S3", WithShut=True, Disps="<- D1"), inv, ["Completes", "ShutReturns", "ShutEnds"])]
    elif pid == "C22":
        out = [(dict(base, WithShut=True, Disps="<- D1"), inv, ["Completes", "ShutReturns", "ShutEnds"]),
               (dict(base, Stuck="<- S2", WithShut=True, Disps="<- D1"), inv, ["Completes", "ShutReturns", "ShutEnds"])]
    else:
        out = [(dict(base, Unsubs="<- S123", Disps="<- D1"), inv, ["Completes", "Delivered"]),
               (dict(base, Unsubs="<- S2", Disps="<- D1", WithShut=True), inv, ["Completes", "ShutReturns"])]
    if THOROUGH:
        out.append((dict(base, Stuck="<- S2", Unsubs="<- S123", Disps="<- D12", WithShut=True), inv, []))
    return out


def check(pid):
    c = Check(pid)
    r = c.rng
    for consts, inv, props in models(pid):
        c.model("MCBus", cfgtext("Fair" if props else "Spec", consts, invs=inv, props=props), workers=8, timeout=800)
    sure, inv, props = models(pid)[0][0], ["Allowed", "ChannelsCloseOnce", "LockOk"], ["Completes", "Delivered", "ShutReturns", "ShutEnds"]
    small = dict(sure, Disps="<- D1", Stuck="<- S2", Unsubs="<- S2", WithShut=False)
    ms = {"default": (small, inv, []), "twice": (small, inv, []), "onetopic": (dict(small, Stuck="<- None", Unsubs="<- None"), inv, []), "nolock": (small, inv, []), "nowait": (small, inv, []), "open": (dict(small, Stuck="<- None"), inv, []),
          "listed": (dict(small, Stuck="<- None"), inv, []), "other": (small, inv, []), "noquit": (small, [], ["Completes"]), "sync": (dict(small, Disps="<- D12", Unsubs="<- None"), [], ["Completes"]),
          "early": (dict(small, WithShut=True, Unsubs="<- None"), inv, []), "forever": (dict(small, WithShut=True, Unsubs="<- None"), [], ["ShutEnds"])}
    mine = {"C20": ["default", "twice", "onetopic", "sync"], "C21": ["noquit", "sync"], "C22": ["early", "forever", "nowait"], "C23": ["nolock", "listed", "nowait", "open", "other"]}[pid]
    c.mistakes("MCBus", lambda m: cfgtext("Fair" if ms[m][2] else "Spec", dict(ms[m][0], Mistake=m), invs=ms[m][1], props=ms[m][2]), mine)
    n = 4000 if THOROUGH else 600
    scripts = fixed() + [Gen(r, pid).script() for _ in range(n)]
    for i, s in enumerate(scripts):
        s["id"] = "b%d" % i
    files = ["pkg/eventbus/bus.go", "pkg/eventbus/event.go"]

    def timed():
        return run_test_driver(build_test_driver("bus", instrument(files)), [dict(s) for s in scripts], procs=4)

    def raced():
        drv = build_test_driver("bus", instrument(files), race=True)
        return run_test_driver(drv, [dict(s, id="r" + s["id"]) for s in scripts], procs=3, env={"VERIF_RACE": "1", "GORACE": "halt_on_error=1"})
    a, b = parallel([timed, raced])
    st = c.validate("TraceBus", a + b, CONSTS, dfs=True)
    c.stuck("event bus", st, scripts + [dict(s, id="r" + s["id"]) for s in scripts])
    return c.finish()
