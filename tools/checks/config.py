"""C12, C13: the configuration of the monitor against spec/Config.tla."""
import socket, stat
from vlib import *

TECHNIQUE = "TLA+ specification of the meaning and the validity of configurations, checked with TLC; TLC validation of what ParseCommandLine, New and the program do with generated command lines and files"
NOTE = ("Design: TLC explores every split of small option sets between command line and file and every order of the file's keys. Binding: those sets and random configurations (values by form, "
        "spellings, YAML styles, invalid variants) go through ParseCommandLine and New, and a part of them through the program itself with a recording command and a listening collector; TLC decides each outcome. "
        "Text forms are sampled from classes; the YAML library's own typing of plain scalars is taken as it is.")

INTS = ["stdout-history", "stderr-history"]
MEMS = ["memory-warn", "memory-kill"]
DURS = ["timeout-warn", "timeout-kill"]
BOOLS = ["no-notify-on-success", "no-notify-on-failure", "daemon", "insecure", "no-error-reports"]
LISTS = ["rule", "rule-json", "creates"]
NAMES = INTS + MEMS + DURS + BOOLS + LISTS + ["id", "host", "shell"]
REGEX = ["error", "a", "^x.*y$", "", "a b", "foo:bar", "[0-9]+", "(?i)fail", "é", "404", "true", "it's", 'say "x"', "a|b", "\\d\\.\\d", "#x", "- x", "{a}", "%s", "a,b", "[x]", "x: y", "-v", "--daemon", "!t", "&a", "*a"[:0] + "a*", "@x", "null", "1.50"]
BADREGEX = ["(", "[a", "*", "a{2,1}", "(?P<x", "\\", "a)(", "x**", "(?!a)"]
TEXTS = ["x", "me@example.com", "an id", "42", "a:b", "é", "my-job", "true", "x=y", "-dash", "#1", "'q'"]
PATHS = ["/tmp/f", "out.txt", "a b.txt", "é", "./x/../y", "/very/long/" + "p" * 80, "f:1", "7", "*.log"]


class Gen:
    def __init__(self, c, shells):
        self.r, self.shells, self.c = c.rng, shells, c

    def value(self, name, bad=False):
        """(form, v, text)"""
        r = self.r
        if name in INTS or name == "rule-quantity":
            if bad:
                return ("word", "", r.choice(["abc", "", "1.5", "5x", "1e3", "ten", "3 4", "0x1F", "99999999999999999999"]))
            n = r.choice([0, 1, 5, 30, 75, 1000, 100000])
            return ("int", n, str(n))
        if name in MEMS:
            if bad:
                return ("word", "", r.choice(["10X", "M", "1.5M", "abc", "10m", "10MB", "", "K10", "10 M", "1G1", "KM", "10k", "G", "MM"]))
            n = r.choice([0, 1, 2, 10, 100, 250, 999, 2000])
            if r.random() < .25:
                return ("int", n * 997, str(n * 997))
            u = r.choice("KMG")
            return ("mem", {"n": n, "u": u}, "%d%s" % (n, u))
        if name in DURS or name == "rule-period":
            if bad:
                return ("word", "", r.choice(["abc", "", "1x", "h", "10", "5 m", "1d", "1:30", "m10", "10mins"]))
            ps = r.choice([[(10, "m")], [(1, "h"), (30, "m")], [(1500, "ms")], [(90, "s")], [(0, "s")], [(24, "h")], [(3, "m"), (7, "s"), (11, "ms")], [(250, "us")], [(1, "ns")], [(2000, "h")],
                           [(r.randint(0, 99), u) for u in ["h", "m", "s", "ms", "us", "ns"] if r.random() < .5] or [(1, "s")]])
            return ("dur", [{"n": n, "u": u} for n, u in ps], "".join("%d%s" % p for p in ps))
        if name in BOOLS:
            if bad:
                return ("word", "", r.choice(["maybe", "", "2", "on!", "yess", "tru", "-1"]))
            b = r.random() < .6
            return ("bool", b, r.choice(["true", "1", "t", "T", "TRUE", "True"] if b else ["false", "0", "f", "F", "FALSE", "False"]))
        if name == "rule":
            if bad:
                x = r.choice(BADREGEX)
                return ("noregex", x, x)
            x = r.choice(REGEX)
            return ("text", x, x)
        if name == "rule-json":
            if bad:
                if r.random() < .5:
                    x = r.choice(["field", "", "a.b", "no colon"])
                    return ("word", x, x)
                x = "f:" + r.choice(BADREGEX)
                return ("jsonnoregex", x, x)
            f, x = r.choice(["f", "a.b", "a.b.c", "level", "é", "x y"]), r.choice(REGEX)
            return ("json", {"f": f, "x": x}, f + ":" + x)
        if name == "host":
            if bad:
                x = r.choice(["localhost", "a:b:c", "", "host", "::", "1.2.3.4"])
                return ("word", x, x)
            h, p = r.choice(["localhost", "127.0.0.1", "report.example.com", "h"]), str(r.choice([80, 443, 8080, 50051, 1]))
            return ("addr", {"h": h, "p": p}, h + ":" + p)
        if name == "shell":
            if bad:
                x = r.choice(["/nonexistent/sh", "no-such-shell", os.path.join(self.shells, "plain"), "", self.shells])
                return ("noexe", x, x)
            p = os.path.join(self.shells, r.choice(["mysh", "other sh"]))
            return ("exe", p, r.choice([p, os.path.basename(p)]))
        if name == "id":
            if bad:
                return ("text", "", "")
            x = r.choice(TEXTS)
            return ("text", x, x)
        if name == "creates":
            x = r.choice(PATHS)
            return ("text", x, x)
        x = r.choice(["x", "true", "5", ""])
        return ("word", x, x)

    # ---- rendering
    def flag(self, name, form, text):
        r = self.r
        if name == "id" and r.random() < .5:
            return r.choice([["-i", text], ["-i", text], ["-i=" + text] if text and not text.startswith("=") else ["-i", text]])
        if form == "bool" and text in ("true", "1", "t", "T", "TRUE", "True") and r.random() < .6:
            return ["--" + name]
        if name in BOOLS or r.random() < .5:
            return ["--%s=%s" % (name, text)]
        return ["--" + name, text]

    def scalar(self, form, text, quoted=False):
        """a YAML scalar that reads as the text"""
        r = self.r
        if form == "int" and not quoted and r.random() < .7:
            return text
        if form == "bool" and r.random() < .7:
            return r.choice(["true", "yes", "on", "True", "Yes"] if text.lower() in ("true", "1", "t") else ["false", "no", "off", "False", "No"])
        if re.match(r"^(0|[1-9]\d*)$", text) and r.random() < .5:
            return text
        if text in ("true", "false") and r.random() < .5:
            return text
        if re.match(r"^[A-Za-z/][A-Za-z0-9_./@-]*$", text) and text.lower() not in ("true", "false", "yes", "no", "on", "off", "y", "n", "null", "nan", "inf") and r.random() < .6:
            return text
        if re.match(r"^\d+[KMGhms]+$", text) and r.random() < .6:
            return text
        if r.random() < .5 or "\\" in text:
            return "'" + text.replace("'", "''") + "'"
        return json.dumps(text, ensure_ascii=False)

    def yaml(self, items):
        """items: (name, list, [(form, v, text)]) -> text and keys as the specification has them"""
        r = self.r
        lines = r.choice([[], [], ["---"], ["# monny", ""]])
        keys = []
        for name, lst, vs in items:
            k = r.choice([name] * 8 + ['"%s"' % name, "'%s'" % name])
            keys.append({"name": name, "list": lst, "vs": [{"form": f, "v": v} for f, v, t in vs]})
            ts = [self.scalar(f, t) if f != "none" else t for f, v, t in vs]
            if not lst:
                lines.append("%s: %s" % (k, ts[0]) + r.choice(["", "", "  # note"] if ts[0] else [""]))
            elif not ts or r.random() < .4:
                lines.append("%s: [%s]" % (k, ", ".join(t if t[:1] in "'\"" or re.match(r"^[\w./@-]+$", t) else self.quote(t) for t in ts)))
            else:
                ind = r.choice(["", "  "])
                lines.append(k + ":")
                lines += [ind + "- " + t for t in ts]
            if r.random() < .1:
                lines.append("")
        return "\n".join(lines) + r.choice(["\n", "\n", ""]), keys

    def quote(self, t):
        return "'" + t.replace("'", "''") + "'"

    # ---- one configuration
    def build(self, opts, cmd, shell, files=None, sep=None):
        """opts: list of ("opt", name, form, v, text) and ("file", path, state, keys)"""
        argv, args = [], []
        last = []
        for o in opts:
            if o[0] == "file":
                argv += self.r.choice([["-c", o[1]], ["--config", o[1]], ["--config=" + o[1]]])
                args.append({"t": "file", "state": o[2], "items": o[3]})
            else:
                _, name, form, v, text = o
                args.append({"t": "opt", "name": name, "form": form, "v": v})
                if form == "none":
                    last = ["--" + name]
                else:
                    argv += self.flag(name, form, text)
        plain = all(not w.startswith("-") for w in cmd)
        if last:
            cmd = [w for w in cmd if not w.startswith("-")]
            argv += cmd + last
        else:
            argv += (["--"] if not plain or self.r.random() < .5 else []) + cmd
        return {"cfg": {"args": args, "cmd": cmd, "shell": shell, "hostname": socket.gethostname()},
                "ops": [], "meta": {"argv": argv, "files": files or {}, "wait": False}}

    def random(self, bad, cmd):
        """a random configuration; bad: how many things are wrong with it"""
        r = self.r
        names = r.sample(NAMES, r.choice([0, 1, 2, 4, 8, len(NAMES)]))
        if "id" not in names:
            names.append("id")
        names += [r.choice(LISTS) for _ in range(r.choice([0, 0, 1, 3]) if r.random() < .98 else 40)]
        r.shuffle(names)
        wrong = ["value"] * 4 + ["name", "yaml", "file", "noid", "noshell", "nocmd", "null", "list", "map"]
        wrongs = [r.choice(wrong) for _ in range(bad)]
        items = [(n,) + self.value(n) for n in names]
        shell = r.choice(["/bin/sh", os.path.join(self.shells, "mysh"), "/no/such/but/named"])
        for w in wrongs:
            if w == "value":
                n = r.choice([x for x in NAMES if x != "creates"])
                items = [x for x in items if x[0] != n or n in LISTS]
                items.insert(r.randint(0, len(items)), (n,) + self.value(n, True))
            elif w == "name":
                n = r.choice(["does-not-exist", "Daemon", "rule-quantity", "rule_json", "help", "config-file", "rules", "x", "stdout"])
                items.insert(r.randint(0, len(items)), (n, "word", "x", "x"))
            elif w == "noid":
                items = [x for x in items if x[0] != "id"]
            elif w == "noshell":
                shell = ""
                items = [x for x in items if x[0] != "shell"]
            elif w == "nocmd":
                cmd = []
        if r.random() < .1:
            shell = ""
            if not any(x[0] == "shell" for x in items):
                items.append(("shell",) + self.value("shell"))
        infile = [x for x in items if r.random() < .5] if r.random() < .75 else ([] if r.random() < .6 else list(items))
        flags = [x for x in items if x not in infile]
        files, opts = {}, [("opt",) + x for x in flags]
        # one key per name
        keys = {}
        for x in infile:
            keys.setdefault(x[0], []).append(x[1:])
        entries = []
        for n, vs in keys.items():
            if n in LISTS:
                entries.append((n, len(vs) > 1 or r.random() < .4, vs))
            else:
                entries.append((n, False, vs[:1]))
                opts += [("opt", n) + v for v in vs[1:]]
        if r.random() < .06:
            entries = [e for e in entries if e[0] != "rule"] + [("rule", True, [])]
        for w in wrongs:
            if w in ("null", "map"):
                n = r.choice(NAMES)
                entries = [e for e in entries if e[0] != n] + [(n, False, [("none", "", r.choice(["", "~", "null"]) if w == "null" else r.choice(["{a: b}", "{}", "{x: [1]}"]))])]
            elif w == "list":
                n = r.choice([x for x in NAMES if x not in LISTS])
                entries = [e for e in entries if e[0] != n] + [(n, True, [self.value(n)])]
        r.shuffle(entries)
        state = "ok"
        if entries or r.random() < .2 or "yaml" in wrongs or "file" in wrongs:
            text, ks = self.yaml(entries)
            path = "@DIR@/a.yml"
            if "yaml" in wrongs:
                state, text = "bad", r.choice(["a: [", "{", "just some text", "- id\n- rule", "id: x\n\trule: y", "id: 'x", ": : :", "id: x\n  rule: y\n", "%YAML", "[id, x]", "42", "id: x\nid"])
            elif "file" in wrongs:
                state, path = "missing", r.choice(["@DIR@/nothing.yml", "@DIR@", "/nonexistent/x.yml", ""])
            files["a.yml"] = text
            at = r.randint(0, len(opts))
            opts.insert(at, ("file", path, state, ks))
            if r.random() < .1:
                text, ks = self.yaml([(n, False, [self.value(n)]) for n in r.sample(LISTS, r.randint(0, 2))])
                files["b.yml"] = text
                opts.insert(r.randint(0, len(opts)), ("file", "@DIR@/b.yml", "ok", ks))
        return self.build(opts, cmd, shell, files)

    def words(self):
        r = self.r
        return r.choice([["cmd"], ["ls", "a", "b"], ["run", "--flag", "-x", "--daemon", "v"], ["sh", "-c", "echo a; echo 'b c'"], ["x", ""], ["c", "a b", "é", "*"], ["c", "--", "-i", "y"], ["c"] + ["w%d" % i for i in range(50)]])

    def from_model(self, args, cmd):
        """render one configuration of MCConfig"""
        texts = {"x": "x"}

        def text(name, form, v):
            if form == "int":
                return str(v)
            if form == "mem":
                return "%d%s" % (v["n"], v["u"])
            if form == "dur":
                return "".join("%d%s" % (p["n"], p["u"]) for p in v)
            if form == "bool":
                return "true" if v else "false"
            if form == "json":
                return v["f"] + ":" + v["x"]
            return v
        opts, files = [], {}
        for a in args:
            if a["t"] == "file":
                ents = [(k["name"], k["list"], [(x["form"], x["v"], text(k["name"], x["form"], x["v"])) for x in k["vs"]]) for k in a["items"]]
                self.r.shuffle(ents)
                files["a.yml"], ks = self.yaml(ents)
                opts.append(("file", "@DIR@/a.yml", "ok", ks))
            else:
                opts.append(("opt", a["name"], a["form"], a["v"], text(a["name"], a["form"], a["v"])))
        return self.build(opts, cmd, "/bin/sh", files)


def wrong(s):
    """whether the generator meant the configuration to be refused (only used to choose what to run)"""
    return s["meta"].get("bad")


def check(pid):
    c = Check(pid)
    r = c.rng
    shells = scratch("shells")
    for n in ("mysh", "other sh", "plain"):
        f = os.path.join(shells, n)
        open(f, "w").write("#!/bin/sh\n")
        os.chmod(f, 0o755 if n != "plain" else 0o644)
    child = os.path.join(shells, "child")
    open(child, "w").write('#!/bin/sh\nfor w in "$0" "$@"; do printf "%s\\0" "$w"; done > "$VERIF_MARK.tmp"; mv "$VERIF_MARK.tmp" "$VERIF_MARK"\n')
    os.chmod(child, 0o755)
    g = Gen(c, shells)

    model_args = []
    for pool in ("<- MCSmall", "<- MCOther"):
        m = c.model("MCConfig", cfgtext(consts={"Pool": pool, "First": True, "Gen": True, "Mistake": ""}, invs=["RightMeaning", "RightVerdict"], actioncon="Emit"), workers=1)
        model_args += [json.loads(x.replace('\\"', '"').replace("\\\\", "\\")) for x in sorted(set(re.findall(r'^"ARGS (.*)"$', m.out, re.M)))]
    c.mistakes("MCConfig", lambda m: cfgtext(consts={"Pool": "<- MCSmall", "First": True, "Gen": False, "Mistake": m}, invs=["RightMeaning"] if pid == "C12" else ["RightVerdict"]),
               ["lastrule", "bools", "onevalue"] if pid == "C12" else ["lenient", "lenientfile", "noid"])
    if THOROUGH:
        c.model("MCConfig", cfgtext(consts={"Pool": "<- MCMiddle", "First": True, "Gen": False, "Mistake": ""}, invs=["RightMeaning", "RightVerdict"], actioncon="Emit"), workers=8)
    c.notes["configurations_from_specification"] = len(model_args)

    def badness(a):
        return (not any(x["t"] == "file" and any(k["name"] == "id" for k in x["items"]) or x["t"] == "opt" and x["name"] == "id" for x in a)
                or any(n in json.dumps(a) for n in ('"nothing"', "nocolon")))
    want = [a for a in model_args if badness(a) == (pid == "C13")]
    r.shuffle(want)
    scripts = []
    n = 8 if THOROUGH else 1
    for a in want[:2500 * n]:
        s = g.from_model(a, g.words())
        s["cfg"]["comp"] = "parse"
        scripts.append(s)
    for i in range(2500 * n):
        bad = 0 if (pid == "C12" or i % 5 == 0) else r.choice([1, 1, 1, 2, 3])
        s = g.random(bad, g.words())
        s["cfg"]["comp"] = "parse"
        scripts.append(s)
    # the constructor on its own
    for i in range(800 * n):
        opts, args = [], []
        bad = pid == "C13"
        for name in r.sample(NAMES + ["rule-quantity", "rule-period"], r.choice([0, 1, 2, 5, 9, 15])) + ([] if r.random() < .3 else ["id"]):
            if any(o[0] == name for o in opts) and name not in LISTS:
                continue
            form, v, text = g.value(name, bad and r.random() < .4 and name not in BOOLS + ["creates"])
            if name in BOOLS:
                form, v, text = "bool", True, ""
            if name == "rule-json" and form == "word":
                continue
            if name == "rule-json" and form == "jsonnoregex":
                opts.append([name, "f", text[2:]])
            elif name == "rule-json":
                opts.append([name, v["f"], v["x"]])
            else:
                opts.append([name, text])
            args.append({"t": "opt", "name": name, "form": form, "v": v})
        shell = "/bin/sh" if not bad or r.random() < .7 else ""
        scripts.append({"cfg": {"comp": "new", "args": args, "cmd": ["true"], "shell": shell, "hostname": socket.gethostname()}, "ops": [], "meta": {"opts": opts, "files": {}, "argv": []}})
    # the program
    for i in range(120 * n):
        words = [child] + r.choice([[], ["a"], ["--daemon", "-i", "z"], ["a b", "", "é"], ["--", "x"]])
        bad = 0 if (pid == "C12" or i % 4 == 0) else r.choice([1, 1, 2])
        s = g.random(bad, words)
        while "timeout-kill" in json.dumps(s["cfg"]) or "memory-kill" in json.dumps(s["cfg"]):
            s = g.random(bad, words)  # the command would be killed before it gets anywhere
        s["cfg"]["comp"] = "run"
        s["meta"]["wait"] = False
        # no real host is ever named
        blob = json.dumps([s["cfg"], s["meta"]])
        for h in ("localhost", "report.example.com"):
            blob = blob.replace(h, "127.0.0.1")
        s["cfg"], s["meta"] = json.loads(blob)
        if bad == 0 and i % 2 == 0:
            # reports are expected at the listener
            opts = [("opt", "id", "text", "x", "x")]
            ins = r.choice([None, True, False])
            hb = [("opt", "host", "addr", {"h": "127.0.0.1", "p": "@PORT@"}, "127.0.0.1:@PORT@")]
            if ins is not None:
                hb.append(("opt", "insecure", "bool", ins, "true" if ins else "false"))
            if r.random() < .5:
                opts += hb
                files = {}
            else:
                text, ks = g.yaml([(o[1], False, [o[2:]]) for o in hb])
                files = {"a.yml": text}
                opts.append(("file", "@DIR@/a.yml", "ok", ks))
            r.shuffle(opts)
            s = g.build(opts, words, "/bin/sh", files)
            s["cfg"]["comp"] = "run"
            s["meta"]["wait"] = True
        scripts.append(s)
    for i, s in enumerate(scripts):
        s["id"] = "k%d" % i
    monny = os.path.join(scratch("monny"), "monny")
    res = {}

    def bm():
        rc, o = gobuild(["build", "-o", monny, "./cmd/monny"], None)
        if rc != 0:
            raise Broken("monny does not build:\n" + o[-3000:])

    def bd():
        res["drv"] = build_test_driver("config")
    parallel([bm, bd])
    r.shuffle(scripts)
    traces = run_test_driver(res["drv"], scripts, procs=CORES, timeout=600, env={"VERIF_MONNY": monny, "PATH": shells + ":/usr/bin:/bin"})
    log("ran")
    st = c.validate("TraceConfig", traces, {"TInit": "<- ConfigInit", "TStep": "<- ConfigStep", "TSilent": "<- NoSilent"})
    byid = {s["id"]: s for s in scripts}
    c.stuck("configuration", st, scripts, why=lambda t, n: "command line %s files %s" % (json.dumps(byid[t["id"]]["meta"].get("argv"))[:300], json.dumps(byid[t["id"]]["meta"].get("files"))[:300]))
    return c.finish()
