"""C17: how the command is started, against spec/Launch.tla."""
import base64
from vlib import *
from checks.sup import binaries

TECHNIQUE = "TLA+ specification of how the command is started, checked with TLC; TLC validation of how the real program starts a command that notes how it was started"
NOTE = ("Design: TLC runs the reading of the command line and the start for all short lines of words that a parser or a shell could take apart, and notices eight wrong designs. Binding: every line of the design and random "
        "ones (quotes, patterns, line ends, bytes that are not UTF-8, empty, very long and very many words), with random options and a random context (environment, directory, limits, umask, priority, "
        "ignored hang-up, open files), go to the real program, around a command that notes its words and context; the context is compared with that of the same command started in the program's place. "
        "The context consists of what the harness can see from inside a process; signals other than SIGHUP that are ignored are left out.")

WORDS = ["", "", " ", "  ", "a", "b c", "-", "--", "---", "-x", "--flag", "--flag=a b", "-i", "--id", "--daemon", "--no-such", "-h", "--help", "-c", "-1", "$HOME", "${HOME}", "$(pwd)", "`pwd`", "*", "?", "[a-z]*", "~", "~root",
         "'", '"', '"a b"', "'a b'", "\\", "\\n", "a\\ b", "|", "a | b", ">", "> /dev/null", "2>&1", "<", "&", "&&", ";", "a; b", "(a)", "{a,b}", "!", "!!", "#", "# a", "%s%n", "%", "a=b", "=", "A=1", "\n", "a\nb", "\t", "\r", " a ",
         "é", "日本語", "😀", "e\u0301", "\u200b", "\x01", "\x7f", "\x1b[31m", ".", "..", "/", "//", "./a", "../a", "@file", "@list", "@./list", "list", "list=@list", "file:list", "<list", "*.txt", "l?st", "true", "null", "0", "{}", "a:b", "a,b", "a b", "ID", "x" * 300]
RAW = [b"\xff", b"\xff\xfe", b"a\xc3", b"\xed\xa0\x80", b"\x80abc", b"caf\xe9"]


def b64(x):
    return base64.b64encode(x if isinstance(x, bytes) else x.encode("utf-8")).decode()


def word(r):
    x = r.random()
    if x < .8:
        return r.choice(WORDS)
    if x < .87:
        return r.choice(RAW)
    if x < .97:
        return "".join(r.choice("ab -\"'\\$*\n\tÉ;|=") for _ in range(r.randint(1, 20)))
    return r.choice("ab ") * r.choice([128, 4096, 70000])


def options(r, m):
    """options that have no effect on the command and need no collector"""
    o = [r.choice([["-i", "x"], ["--id=x"], ["--id", "x y"], ["-ix"]]), ["--insecure"], ["--host", "127.0.0.1:9"], ["--no-error-reports"], ["--no-notify-on-success"], ["--no-notify-on-failure"]]
    y = []
    for flag, values in (("daemon", None), ("stdout-history", ["1", "30", "100000"]), ("stderr-history", ["1", "500"]), ("rule", ["zzz+", "^never$", "(?i)zzz"]), ("rule-json", ["a:b", "a.b:^c$"]),
                         ("timeout-kill", ["1h", "24h"]), ("memory-kill", ["900G", "900000M"]), ("timeout-warn", ["2h"]), ("memory-warn", ["800G"]), ("shell", ["/bin/bash", "/bin/sh", "sh", "/bin/true"])):
        if r.random() < .25:
            if values and r.random() < .3 and not flag.startswith("rule-json"):
                y.append("%s: %s" % (flag, r.choice(values)))
            elif values:
                o.append(r.choice([["--%s=%s" % (flag, r.choice(values))], ["--" + flag, r.choice(values)]]))
            else:
                o.append(["--" + flag])
    # no rule may meet anything: what the command prints is known
    if y:
        m["yaml"] = "\n".join(y) + "\n"
        o.append(["-c", "@/c.yml"])
    r.shuffle(o)
    return sum(o, [])


def context(r):
    env = []
    for _ in range(r.choice([0, 1, 3, 8])):
        env.append(r.choice(["EMPTY=", "A=1", "B=b=c=d", "C= spaced ", "D=two\nlines", "E=é日本", "F=$HOME `pwd` *", "lower=x", "Mixed_Case=y", "LANG=C", "LC_ALL=de_DE.UTF-8", "TZ=Pacific/Auckland", "TERM=dumb", "USER=nobody", "TMPDIR=/nonexistent",
                             "GOMAXPROCS=3", "MONNY_ID=y", "ID=z", "HTTP_PROXY=http://127.0.0.1:9", "IFS=x", "LD_LIBRARY_PATH=/nonexistent", "PS1=> ", "DAEMON=1", b"RAW=\xff\xfe", "LONG=" + "v" * 50000, "Q=\"quoted\" 'x' \\", "COLUMNS=80", "_X=1",
                             "TAB=\ta\t", "HASH=#", "NUMBER=0123", "DISPLAY=:0"]))
    if r.random() < .15:
        env += ["MANY_%d=%d" % (i, i) for i in range(r.choice([70, 300, 1500]))]
    seen, out = set(), []
    for e in env:
        k = e.split("=" if isinstance(e, str) else b"=")[0]
        k = k if isinstance(k, str) else k.decode()
        if k not in seen:
            seen.add(k)
            out.append(b64(e))
    r.shuffle(out)
    wrap = []
    for w in ("umask 000", "umask 077", "umask 027", "ulimit -c 0", "ulimit -S -c 0", "ulimit -n 500", "ulimit -H -n 900", "ulimit -t 1000", "ulimit -s 4096", "ulimit -f 100000", 'trap "" HUP', "exec 3</dev/null", "exec 5>/dev/null 7</dev/zero"):
        if r.random() < .07:
            wrap.append(w)
    if r.random() < .12:
        # setsid would take it out of the group; renice is not always there
        wrap.append("renice -n 5 -p $$ >/dev/null 2>&1 || true")
    return env_cfg(out, " ; ".join(wrap), r)


def env_cfg(env, wrap, r):
    return {"env": env, "wrap": wrap, "cwd": b64(r.choice(["", "", " o r k", "ö日", "/deep/er/dir", "'q\"", "-x", "$HOME", "\nl"])), "cwdlink": r.random() < .15, "shell": r.choice(["/bin/sh", "/bin/sh", "/bin/bash", "/nonexistent/shell", "zsh -l"])}


def script(i, words, r, sep=None, plain=False):
    opt = any((w[:1] in ("-", b"-")) and w != "-" for w in words)
    m = {"words": [b64(w) for w in words], "sep": True if opt else (r.random() < .6 if sep is None else sep), "exit": r.choice([0, 0, 0, 1, 2, 126, 127, 255, r.randint(3, 254), r.randint(64, 80), -9, -15]), "out": r.choice([0, 0, 1, 40]),
         "how": r.choice(["absolute", "absolute", "path", "relative", "here", "link"]), "name": b64(r.choice(["", "", " with space", ".sh", "-1", "$x", "日", "'"])), "bin": r.choice(["plain", "instr"])}
    m.update(env_cfg([], "", r) if plain else context(r))
    m["opts"] = options(r, m)
    return {"id": "l%s" % i, "cfg": {"comp": "launch"}, "ops": [], "meta": m}


def check(pid):
    c = Check(pid)
    r = c.rng
    n = 4 if THOROUGH else 3
    g = c.model("MCLaunch", cfgtext(consts={"MaxLen": n, "Mistake": ""}, invs=["Conforms", "Once", "Emit"], props=["Ends"]), workers=1)
    c.mistakes("MCLaunch", lambda m: cfgtext(consts={"MaxLen": 3, "Mistake": m}, invs=["Conforms", "Once"]),
               ["every separator", "takes options", "drops empty", "shell", "resolves", "context", "again", "no run"])
    lines = []
    for m in re.finditer(r'^"SCRIPT (.*)"$', g.out, re.M):
        lines.append(["".join(w) for w in json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))["line"]])
    lines.sort()
    c.notes["lines_of_the_design"] = len(lines)
    # the first word of the command is its name; what follows it is what the design is given
    todo = sorted(set((l[0] == "--", tuple(l[2:] if l[0] == "--" else l[1:])) for l in lines))
    r.shuffle(todo)
    scripts = []
    for sep, ws in todo[:(600 if THOROUGH else 90)]:
        scripts.append(script("m%d" % len(scripts), list(ws), r, sep, plain=r.random() < .5))
    for _ in range(1500 if THOROUGH else 160):
        scripts.append(script("r%d" % len(scripts), [word(r) for _ in range(r.choice([0, 1, 2, 3, 5, 9, 20]))], r))
    for k in (17, 33, 65, 129, 257, 700) + ((5000, 20000) if THOROUGH else ()):
        scripts.append(script("b%d" % len(scripts), [r.choice(["a", "", "w%d" % j]) for j in range(k)], r))
    log("%d scripts" % len(scripts))
    res = {}

    def drv():
        res["drv"] = build_test_driver("launch")

    def mon():
        res["bins"] = binaries(pid)
    parallel([drv, mon])
    traces = run_test_driver(res["drv"], scripts, par=6, procs=2, timeout=600, env={"VERIF_BINS": json.dumps(res["bins"]), "VERIF_WATCH": "150s"})
    broken = [t for t in traces if any(e["op"] == "broken" for e in t["ev"])]
    if len(broken) > len(traces) // 10:
        raise Broken("the command can not be started here: %s" % broken[0].get("note"))
    traces = [t for t in traces if t not in broken]
    c.notes["left_out"] = len(broken)
    for t in traces:
        t["cfg"] = {}
    st = c.validate("TraceLaunch", traces, {"TInit": "<- LTInit", "TStep": "<- LTStep", "TSilent": "<- NoSilent"})
    c.stuck("launch", st, scripts, why=lambda t, n: differs(t, n))
    return c.finish()


def differs(t, n):
    ev = t["ev"]
    if n < len(ev) and ev[n]["op"] == "run" and n > 0 and ev[0]["op"] == "given":
        a, b = ev[0], ev[n]
        w = a["line"][1:] if a["line"][0] == "--" else a["line"]
        if w != b["words"]:
            return "given %s, run %s" % (json.dumps(w)[:200], json.dumps(b["words"])[:200])
        return "; ".join("%s: given %s, run with %s" % (k, json.dumps([x for x in a["ctx"][k] if x not in b["ctx"][k]] if isinstance(a["ctx"][k], list) else a["ctx"][k])[:150],
                                                        json.dumps([x for x in b["ctx"][k] if x not in a["ctx"][k]] if isinstance(b["ctx"][k], list) else b["ctx"][k])[:150])
                         for k in a["ctx"] if a["ctx"][k] != b["ctx"][k]) or "process group"
    return t.get("note", "")[:300]
