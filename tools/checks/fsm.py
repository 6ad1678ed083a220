"""C30, C31: pkg/fsm against spec/Fsm.tla."""
import itertools
from vlib import *

STATES = ["a", "b", "c"]
PAIRS = [(x, y) for x in STATES for y in STATES]
C30_INV = ["OnlyDeclared", "RefusedUnchanged", "StopSticks", "OrdinaryNeverStops", "StoppedRefuses", "ResetRestores", "OnlyReachable"]
C31_INV = ["NonceFresh", "NonceNeeded", "NonceRenewed"]


def check(pid):
    c = Check(pid)
    nonce = pid == "C31"
    base = {"S": set(STATES), "MaxOps": 4 if THOROUGH else 3, "Gen": False,
            "EdgeSets": "<- AllEdgeSets" if not nonce or THOROUGH else "<- SomeEdgeSets", "Nonces": {nonce}, "Mistake": ""}
    c.model("MCFsm", cfgtext(consts=base, invs=C30_INV + (C31_INV if nonce else []), props=["NonceOnce"] if nonce else [], view="NView"), workers=8)
    c.mistakes("MCFsm", lambda m: cfgtext(consts=dict(base, EdgeSets="<- SomeEdgeSets", MaxOps=3, Mistake=m), invs=C30_INV + (C31_INV if nonce else []), props=["NonceOnce"] if nonce else [], view="NView"),
               ["moves", "goes", "stays", "stopped"] + (["kept", "same", "nonce"] if nonce else []))
    gen = dict(base, Gen=True, EdgeSets="<- SomeEdgeSets", MaxOps=5)
    g = c.model("MCFsm", cfgtext(consts=gen, view="GenView", actioncon="Emit"), workers=1)
    scripts = scripts_of(g.out)
    c.notes["scripts_from_specification"] = len(scripts)
    for s in scripts:
        s["cfg"]["decl"] = c.rng.choice(["single", "grouped", "mixed"])
        s["cfg"]["stopfirst"] = c.rng.random() < .5
        # ask about every pair at the end, and before
        probes = [{"op": "allow", "from": x, "to": y} for x, y in PAIRS]
        c.rng.shuffle(probes)
        s["ops"] = probes[:2] + s["ops"] + probes[2:]
    # random machines and longer histories
    for i in range(3000 if THOROUGH else 600):
        r = c.rng
        st = ["s%d" % k for k in range(r.randint(1, 6))] + ([""] if r.random() < .1 else [])
        if i % 10 == 9:     # names that are nearly the same
            st = r.sample(["ab", "AB", "Ab", "ab ", " ab", "a b", "ab\n", "é", "É", "e\u0301", "a", "ab\u0000"], 6)
        edges = [[r.choice(st), r.choice(st)] for _ in range(r.randint(0, 12))]
        if r.random() < .5:
            edges.sort()
        ops = []
        names = st + ["zz", ""]
        cur = None
        for _ in range(r.randint(1, 25)):
            x = r.random()
            if x < .12:
                ops.append({"op": "reset"})
            elif x < .25:
                ops.append({"op": "allow", "from": r.choice(names), "to": r.choice(names)})
            else:
                # mostly follow declared edges so that long walks happen
                to = r.choice(edges)[1] if edges and r.random() < .7 else r.choice(names)
                ops.append({"op": "tr", "to": to, "given": r.choice([1, 1, 1, 1, 2, 0]), "back": r.randint(0, 8)})
        scripts.append({"cfg": {"initial": r.choice(st), "edges": edges, "stoppable": r.random() < .4, "nonce": nonce,
                                "decl": r.choice(["single", "grouped", "mixed"]), "stopfirst": r.random() < .5}, "ops": ops})
    # large machines and long walks
    for i in range(30 if THOROUGH else 6):
        r = c.rng
        st = ["s%d" % k for k in range([12, 60, 30][i % 3])]
        nxt = {x: r.sample(st, r.randint(1, 6)) for x in st}
        edges = [[x, y] for x in st for y in nxt[x]]
        if i % 3 != 1:
            r.shuffle(edges)
        cur, ops = st[0], []
        for _ in range(400):
            if r.random() < .8:
                to = r.choice(nxt[cur])
                ops.append({"op": "tr", "to": to, "given": 1, "back": 0})
                cur = to
            elif r.random() < .9:
                to = r.choice([x for x in st if x not in nxt[cur]])
                ops.append({"op": "tr", "to": to, "given": 1, "back": 0})
            else:
                ops.append({"op": "allow", "from": r.choice(st), "to": r.choice(st)})
        scripts.append({"cfg": {"initial": st[0], "edges": edges, "stoppable": i % 2 == 0, "nonce": nonce, "decl": "grouped" if i % 3 == 1 else r.choice(["single", "grouped", "mixed"]), "stopfirst": False}, "ops": ops})
    # a configuration with an option of the caller's own that refuses
    for i in range(12):
        scripts.append({"cfg": {"initial": "a", "edges": [["a", "b"], ["b", "c"], ["c", "a"]][:i % 4], "stoppable": i % 2 == 0, "nonce": nonce, "refuse": i // 2,
                                "decl": c.rng.choice(["single", "grouped", "mixed"]), "stopfirst": i % 3 == 0}, "ops": [{"op": "reset"}]})
    for i, s in enumerate(scripts):
        s["id"] = "f%d" % i
        s["cfg"]["comp"] = "fsm"
    traces = run_test_driver(build_test_driver("fsm"), scripts, procs=2)
    stuck = c.validate("TraceFsm", traces, {"TInit": "<- FsmInit", "TStep": "<- FsmStep", "TSilent": "<- NoSilent"})
    c.stuck("fsm", stuck, scripts)
    return c.finish()
