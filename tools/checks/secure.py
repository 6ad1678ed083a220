"""C18: to whom reports are sent, and how, against spec/Conn.tla."""
from vlib import *
from checks.sup import binaries

TECHNIQUE = "TLA+ specification of who may receive a report, checked with TLC against an adversary at the address; TLC validation of what servers of all kinds received from the real program"
NOTE = ("Design: TLC runs a client that connects anew for every attempt against all sequences of servers (plain ones and all kinds of certificates), and notices eleven wrong designs. Binding: sequences of the design, "
        "with certificates made for the purpose (other roots, self-signed, signed by a leaf, other names and addresses, expired, not yet valid, not for servers) and an old version of TLS, answer one after another at the configured address "
        "while the real program tries to deliver; what every one of them was sent is recorded, in the clear and through TLS. Cryptography and the examination of chains beyond that are those of Go and left to it.")


def right(secure, s):
    return s["tls"] and s["known"] and s["named"] and s["timely"] and s["server"] and s["modern"] if secure else not s["tls"]


def script(i, r, secure, servers, attempts=2, bin=None):
    ss = []
    for s in servers:
        s = dict(s, right=right(secure, s))
        s["how"] = r.choice(["self", "leaf", "evil"]) if not s["known"] else r.choice(["future", "past"]) if not s["timely"] else r.choice(["swapped", "other"]) if not s["named"] else r.choice(["direct", "through"])
        ss.append(s)
    reports = r.choice([1, 2])
    return {"id": "s%s" % i, "cfg": {"comp": "secure", "secure": secure, "reports": reports}, "ops": [],
            "meta": {"servers": ss, "host": r.choice(["localhost", "127.0.0.1"]), "hostyaml": r.random() < .3, "say": r.choice(["", "", "", "false", "yamlfalse"] if secure else ["flag", "flag", "true", "yaml"]), "reports": reports,
                     "exit": r.choice([0, 1]), "attempts": attempts, "patience": 60 if ss[-1]["right"] else 30, "bin": bin or r.choice(["plain", "plain", "instr"])}}


def check(pid):
    c = Check(pid)
    r = c.rng
    base = {"MaxServers": 3 if THOROUGH else 2, "Reports": 2, "Mistake": ""}
    invs = ["Conforms", "Private"]
    g = c.model("MCConn", cfgtext(consts=base, invs=invs + ["Emit"]), workers=1)
    c.mistakes("MCConn", lambda m: cfgtext(consts=dict(base, MaxServers=2, Mistake=m), invs=invs),
               ["fallback", "second", "always", "never plain", "any root", "trusts on first use", "any name", "any time", "any usage", "any version", "gives up"])
    seqs = []
    for m in re.finditer(r'^"SCRIPT (.*)"$', g.out, re.M):
        seqs.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    c.notes["sequences_of_the_design"] = len(seqs)

    def wrong(s):
        return sum(not s[k] for k in ("known", "named", "timely", "server", "modern")) if s["tls"] else 1
    # at most one thing wrong with a server: two would hide one another
    seqs = [q for q in seqs if all(wrong(s) <= 1 for s in q["servers"])]
    seqs.sort(key=json.dumps)
    r.shuffle(seqs)
    n1, n2 = [q for q in seqs if q["secure"]], [q for q in seqs if not q["secure"]]
    scripts = []
    for q in seqs if THOROUGH else r.sample(n1, min(len(n1), 44)) + r.sample(n2, 14):
        scripts.append(script(len(scripts), r, q["secure"], q["servers"]))
    T = {"tls": True, "known": True, "named": True, "timely": True, "server": True, "modern": True}
    kinds = [T, dict(T, known=False), dict(T, named=False), dict(T, timely=False), dict(T, server=False), dict(T, modern=False), dict.fromkeys(T, False)]
    for k in kinds:                     # alone, for many attempts, and once it was the right one
        scripts.append(script(len(scripts), r, True, [k], attempts=r.choice([4, 6])))
        scripts.append(script(len(scripts), r, True, [T, k, T]))
        if k is not T:
            scripts.append(script(len(scripts), r, True, [k], attempts=14, bin="fast"))
    scripts.append(script(len(scripts), r, False, [T], attempts=5))
    scripts.append(script(len(scripts), r, False, [kinds[-1]]))
    log("%d scripts" % len(scripts))
    res = {}

    def drv():
        res["drv"] = build_test_driver("secure")

    def mon():
        res["bins"] = binaries(pid)
    parallel([drv, mon])
    traces = run_test_driver(res["drv"], scripts, par=10, procs=2, timeout=600, env={"VERIF_BINS": json.dumps(res["bins"]), "VERIF_WATCH": "200s"})
    broken = [t for t in traces if any(e["op"] == "broken" for e in t["ev"])]
    if len(broken) > len(traces) // 10:
        raise Broken("monny can not be started here: %s" % broken[0].get("note"))
    traces = [t for t in traces if t not in broken]
    c.notes["left_out"] = len(broken)
    for t in traces:
        t["cfg"] = {"secure": t["cfg"]["secure"], "reports": t["cfg"]["reports"]}
    st = c.validate("TraceConn", traces, {"TInit": "<- ConnInit", "TStep": "<- ConnStep", "TSilent": "<- NoSilent"})
    c.stuck("secure", st, scripts)
    return c.finish()
