"""C10: the JSON rules of the monitor against spec/JsonRule.tla."""
import base64
from vlib import *


def cps(s):
    return [ord(x) for x in s]


# ------------------------------------------------------------------ rendering
def rstr(r, c):
    out = '"'
    for x in c:
        ch = chr(x)
        if x in (0x22, 0x5c):
            out += "\\" + ch
        elif x < 0x20:
            short = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}.get(x)
            out += short if short and r.random() < .7 else "\\u%04x" % x
        elif r.random() < .06 or (x > 126 and r.random() < .4):
            if x > 0xffff:
                y = x - 0x10000
                out += "\\u%04X\\u%04x" % (0xd800 + (y >> 10), 0xdc00 + (y & 0x3ff))
            else:
                out += ("\\u%04x" if r.random() < .5 else "\\u%04X") % x
        elif ch == "/" and r.random() < .5:
            out += "\\/"
        else:
            out += ch
    return out + '"'


def render(r, v, ws):
    def sp():
        return r.choice(["", " ", "\t", "  "]) if ws else ""
    t = v["t"]
    if t == "s":
        return rstr(r, v["c"])
    if t == "n":
        s = ("-" if v["neg"] else "") + "".join(map(str, v["i"]))
        if v["f"]:
            s += "." + "".join(map(str, v["f"]))
        if v["e"] or r.random() < .1:
            s += r.choice("eE") + ("-" if v["e"] < 0 else r.choice(["", "+"])) + r.choice(["", "", "0"]) + str(abs(v["e"]))
        return s
    if t == "b":
        return "true" if v["v"] else "false"
    if t == "z":
        return "null"
    if t == "a":
        return "[" + sp() + ("," + sp()).join(render(r, x, ws) + sp() for x in v["e"]) + "]"
    if t == "o":
        return "{" + sp() + ("," + sp()).join(rstr(r, f["k"]) + sp() + ":" + sp() + render(r, f["v"], ws) + sp() for f in v["f"]) + "}"
    return v["raw"]


def regex(x):
    k = x["r"]
    if k == "lit":
        c = chr(x["c"])
        return "\\n" if c == "\n" else re.escape(c) if ord(c) < 128 and not c.isalnum() and c > " " else c
    if k == "dot":
        return "."
    if k == "cls":
        return "[" + "".join("\\" + chr(c) if chr(c) in "^]\\-[" else chr(c) for c in x["s"]) + "]"
    if k == "cat":
        return regex(x["x"]) + regex(x["y"])
    if k == "alt":
        return "(?:" + regex(x["x"]) + "|" + regex(x["y"]) + ")"
    if k == "star":
        return "(?:" + regex(x["x"]) + ")*"
    return {"bot": "^", "eot": "$", "bol": "(?m:^)", "eol": "(?m:$)", "eps": ""}[k]


# ------------------------------------------------------------------ generating
KEYS = ["a", "b", "level", "msg", "A", "", "é", "a b", "x-y", "Level", "日本", "0", "$t", 'q"t', "😀"]
WORDS = ["", "a", "ab", "error", "ERROR", "e", "x y", "0.5", "true", "é", "日本語", "😀", 'say "hi"', "back\\slash", "a/b", "line1\nline2", "\t", "1.000000", "null", "{", "[a]", "aa"]


def string(r):
    return {"t": "s", "c": cps(r.choice(WORDS) if r.random() < .9 else "".join(r.choice("abé😀\n\"\\/ ") for _ in range(r.randint(1, 9))))}


def number(r):
    while True:
        i = [r.randint(0, 9) for _ in range(r.choice([1, 1, 2, 3, 6]))]
        if len(i) > 1 and i[0] == 0:
            i[0] = r.randint(1, 9)
        f = [r.randint(0, 9) for _ in range(r.choice([0, 0, 1, 2, 6, 7]))]
        e = r.choice([0, 0, 0, 1, 2, 3, -1, -2, -6, 6])
        neg = r.random() < .3
        ds = i + f
        pos = len(i) + e
        if not any(ds):
            neg = False
        # decimals after the sixth must not be close to a tie, and -0 is avoided
        tail = [0] * -pos + ds if pos < 0 else ds[pos:]
        tail += [0] * 9
        if tail[6] == 5 and not any(tail[7:]) or (neg and not any(ds[:max(0, pos)]) and not any(tail[:6])):
            continue
        if sum(1 for _ in ds) <= 15 and pos <= 15:
            return {"t": "n", "neg": neg, "i": i, "f": f, "e": e}


def scalar(r):
    return r.choice([string, string, number, lambda r: {"t": "b", "v": r.random() < .5}])(r)


def value(r, d):
    x = r.random()
    if x < .5 or d == 0:
        return scalar(r)
    if x < .58:
        return {"t": "z"}
    if x < .76:
        return {"t": "a", "e": [r.choice([scalar, scalar, scalar, scalar, lambda r: {"t": "z"}, lambda r: value(r, d - 1)])(r) for _ in range(r.choice([0, 1, 2, 3, 6]))]}
    return obj(r, d - 1)


def obj(r, d):
    ks = r.sample(KEYS, r.choice([0, 1, 2, 3, 5]))
    if r.random() < .7 and "a" not in ks:
        ks.append("a")
    r.shuffle(ks)
    return {"t": "o", "f": [{"k": cps(k), "v": value(r, d)} for k in ks]}


def odd(r):
    """lines that are no JSON objects, or of which nothing is said"""
    good = render(r, obj(r, 2), False)
    bad = {"t": "x"}
    x = r.randint(0, 17)
    if x <= 3:
        return bad, good[:r.randint(0, len(good) - 1)] or "{"
    if x == 4:
        return bad, good + r.choice(["}", ",", " x", '{"a":"a"}', "]", "\\"])
    if x == 5:
        return bad, r.choice(["{'a':'error'}", "{a:\"error\"}", '{"a":"error",}', '{"a" "error"}', '{"a":error}', '{"a":NaN}', '{"a":01}', '{"a":.5}', '{"a":1.}', '{"a":+1}', '{"a":TRUE}',
                              '{"a":"\\x41"}', '{"a":"\\u12"}', '{,}', '{"a":}', '{"a":["error",]}', '//{"a":"error"}', 'x{"a":"error"}', '{"a":"tab\there"}', "{\"a\":'error'}"])
    if x == 6:
        return bad, r.choice(["plain error text", "", "a", "error", "a:error", "\x00\x01\x02", "}{", "]", "\\", '"', ":", "level=error msg=a"])
    if x == 7:
        v = value(r, 2)
        if v["t"] != "o":
            return v, render(r, v, True)
        return bad, "{"
    if x == 8:
        v = r.choice([{"t": "a", "e": [obj(r, 1)]}, {"t": "z"}, string(r), number(r), {"t": "b", "v": True}])
        return v, render(r, v, True)
    if x == 9:  # not UTF-8
        return {"t": "?"}, b'{"a":"error\xff\xfe"}' if r.random() < .5 else b"\xff\xfe\xc3\x28 error"
    if x == 10:
        return {"t": "?"}, r.choice(['{"a":"\\ud800"}', '{"a":"\\udc00error"}', '{"a":"error","a":"b"}', '{"a":1e999}', '{"a":[1e999,"error"]}'])
    if x == 11:
        n = r.choice([3, 50, 2000, 9000, 12000, 100000])
        return {"t": "?"}, r.choice(['{"a":' * n, '[' * n, '{"a":' * n + '"error"' + "}" * n, '{"a":' + "[" * n + "]" * n + "}"])
    if x == 12:
        return {"t": "?"}, '{"a":"' + "error " * r.choice([100, 20000, 100000]) + '"}'
    if x == 13:  # a long line that is not JSON
        return bad, "error " * r.choice([100, 20000, 100000])
    # another field has a value outside the range of numbers, or of which nothing is said
    o = obj(r, 1)
    o["f"] = [f for f in o["f"] if f["k"] != cps("big")]
    o["f"].insert(r.randint(0, len(o["f"])), {"k": cps("big"), "v": {"t": "?", "raw": r.choice(["1e999", "-1e400", "[1e999]", '{"a":1e999}', "123456789" * 40])}})
    return o, render(r, o, True)


def expr(r, texts):
    lit = lambda s: cat(*[{"r": "lit", "c": c} for c in s]) if s else {"r": "eps"}

    def cat(*xs):
        x = xs[0]
        for y in xs[1:]:
            x = {"r": "cat", "x": x, "y": y}
        return x
    t = r.choice(texts) if texts and r.random() < .8 else cps(r.choice(WORDS))
    t = t[:12] if r.random() < .8 else t
    N = lambda k: {"r": k}
    x = r.randint(0, 12)
    if x <= 2:
        return cat(N("bot"), lit(t), N("eot"))
    if x <= 4:
        i = r.randint(0, len(t))
        return lit(t[i:i + r.randint(1, 4)])
    if x == 5:
        return N("dot")
    if x == 6:
        ls = [l for l in "".join(map(chr, t)).split("\n")]
        return cat(N("bol"), lit(cps(r.choice(ls))), N("eol"))
    if x == 7:
        return {"r": "star", "x": lit(t[:1])}
    if x == 8:
        return cat(N("bot"), {"r": "star", "x": {"r": "cls", "s": cps("0123456789-")}}, {"r": "lit", "c": 46}, *[{"r": "cls", "s": cps("0123456789")}] * 6, N("eot"))
    if x == 9:
        return {"r": "alt", "x": lit(t[:3]) if t else N("dot"), "y": lit(cps("error"))}
    if x == 10:
        return cat(lit(t[:1]), {"r": "star", "x": N("dot")}, lit(t[-1:]))
    if x == 11:
        return cat(N("bot"), N("eot"))
    return cat(lit(t[-2:]), N("eot"))


def text_of(v):
    """a guess of the texts in a value, to have expressions that match"""
    if v["t"] == "s":
        return [v["c"]]
    if v["t"] == "b":
        return [cps("true" if v["v"] else "false")]
    if v["t"] == "n":
        x = float(("-" if v["neg"] else "") + "".join(map(str, v["i"])) + "." + "".join(map(str, v["f"] or [0])) + "e%d" % v["e"])
        return [cps("%f" % x)]
    if v["t"] == "a":
        parts = sum([text_of(x)[:1] for x in v["e"] if x["t"] in "snb"], [])
        return [sum([p + [10] for p in parts], [])[:-1]] if parts else []
    return []


def paths(v, pre=()):
    out = []
    if v["t"] == "o":
        for f in v["f"]:
            if 46 in f["k"]:
                continue
            out.append((pre + (f["k"],), f["v"]))
            out += paths(f["v"], pre + (f["k"],))
    return out


def script(i, rules, lines, stderr):
    """lines: pairs (value, bytes)"""
    seen, ls = set(), []
    for v, raw in lines:
        b = raw if isinstance(raw, bytes) else raw.encode("utf-8")
        if b in seen or b"\n" in b or b.endswith(b"\r"):
            continue
        seen.add(b)
        ls.append((strip(v), b))
    return {"id": "j%s" % i, "cfg": {"comp": "json", "rules": rules, "lines": [v for v, b in ls]}, "ops": [],
            "meta": {"lines": [base64.b64encode(b).decode() for v, b in ls], "stderr": stderr,
                     "rules": [{"field": ".".join("".join(map(chr, k)) for k in x["path"]), "regex": regex(x["x"])} for x in rules]}}


def strip(v):
    if v["t"] == "?":
        return {"t": "?"}
    if v["t"] == "a":
        return {"t": "a", "e": [strip(x) for x in v["e"]]}
    if v["t"] == "o":
        return {"t": "o", "f": [{"k": f["k"], "v": strip(f["v"])} for f in v["f"]]}
    return v


def check(pid):
    c = Check(pid)
    r = c.rng
    g = c.model("MCJson", cfgtext(consts={"Wide": THOROUGH, "Gen": True, "Mistake": ""}, invs=["Agrees", "OnlyTheField", "NeverElsewhere"], actioncon="Emit"), workers=1)
    c.mistakes("MCJson", lambda m: cfgtext(consts={"Wide": False, "Gen": False, "Mistake": m}, invs=["Agrees"]), ["whole", "short", "strings", "noarrays", "null"])
    byrule = {}
    for m in re.finditer(r'^"PAIR (.*)"$', g.out, re.M):
        o = json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
        byrule.setdefault(json.dumps(o["rule"], sort_keys=True), []).append(o["line"])
    scripts = []
    for k in sorted(byrule):
        rule, ls = json.loads(k), byrule[k]
        ls.sort(key=lambda v: json.dumps(v, sort_keys=True))
        r.shuffle(ls)
        c.notes["pairs_from_specification"] = c.notes.get("pairs_from_specification", 0) + len(ls)
        for j in range(0, len(ls), 120):
            pairs = []
            for v in ls[j:j + 120]:
                if v["t"] == "x":
                    pairs.append((v, r.choice(["", "a", "{", '{"a":', "error a"])))
                else:
                    pairs.append((v, render(r, v, r.random() < .3)))
            scripts.append(script("m%d" % len(scripts), [rule], pairs, r.random() < .3))
    for _ in range(3000 if THOROUGH else 350):
        pairs = []
        for _ in range(r.choice([1, 3, 12, 30])):
            if r.random() < .3:
                pairs.append(odd(r))
            else:
                v = obj(r, r.choice([0, 1, 2, 3]))
                pairs.append((v, r.choice(["", "", " ", "\t"]) + render(r, v, r.random() < .4) + r.choice(["", "", " "])))
        cand = sum([paths(v) for v, _ in pairs], [])
        cand = [x for x in cand if x[0] != ([],)]
        rules = []
        for _ in range(r.choice([1, 1, 2, 3])):
            if cand and r.random() < .85:
                p, v = r.choice(cand)
                p = list(p)
                if r.random() < .1:
                    p = p + [cps("a")] if r.random() < .5 else p[1:] or p
                x = expr(r, text_of(v))
            else:
                p, x = [cps(r.choice(KEYS[:5]))], expr(r, [])
            if p == [[]]:
                p = [cps("a")]
            rules.append({"path": p, "x": x})
        scripts.append(script("r%d" % len(scripts), rules, pairs, r.random() < .3))
    # large ones: deep paths, long arrays, many fields, many rules
    for k in range(24 if THOROUGH else 8):
        pairs = []
        for _ in range(6):
            if k % 2:
                v, path = scalar(r), []
                for d in range(r.choice([8, 20, 33])):
                    q = r.choice(["a", "b", "level"])
                    path.insert(0, cps(q))
                    v = {"t": "o", "f": [{"k": cps(q), "v": v}] + ([{"k": cps("x-y"), "v": scalar(r)}] if r.random() < .3 else [])}
            else:
                big = {"t": "a", "e": [scalar(r) for _ in range(r.choice([40, 120]))]}
                v = {"t": "o", "f": [{"k": cps("f%d" % j), "v": scalar(r)} for j in range(60)]}
                v["f"].insert(r.randint(0, 60), {"k": cps("a"), "v": big})
            pairs.append((v, render(r, v, False)))
        cand = sum([paths(v) for v, _ in pairs], [])
        rules = []
        for _ in range(r.choice([1, 12, 20])):
            p, v = r.choice([x for x in cand if x[1]["t"] not in "o"])
            rules.append({"path": list(p), "x": expr(r, [t[:30] for t in text_of(v)])})
        scripts.append(script("b%d" % len(scripts), rules, pairs, False))
    # numbers
    for _ in range(300 if THOROUGH else 30):
        n = [number(r) for _ in range(40)]
        v = r.choice(n)
        rule = {"path": [cps("n")], "x": expr(r, text_of(v))}
        scripts.append(script("n%d" % len(scripts), [rule], [(o, render(r, o, False)) for o in [{"t": "o", "f": [{"k": cps("n"), "v": x}]} for x in n]], False))
    log("%d scripts, %d lines" % (len(scripts), sum(len(s["cfg"]["lines"]) for s in scripts)))
    traces = run_test_driver(build_test_driver("json"), scripts, procs=CORES, timeout=300)
    st = c.validate("TraceJson", traces, {"TInit": "<- JsonInit", "TStep": "<- JsonStep", "TSilent": "<- NoSilent"})
    byid = {s["id"]: s for s in scripts}
    c.stuck("json rule", st, scripts, why=lambda t, n: "rules %s" % json.dumps(byid[t["id"]]["meta"]["rules"], ensure_ascii=True)[:200])
    return c.finish()
